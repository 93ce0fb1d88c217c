// Selection of the channels with most power, strongest first.
module energetic {
  import fx.* from "./fx"
  type Cfg = { groups: int, chans: int, len: int, num: int, complex: bool, perm: int, seed: int, level: int, kind: int }
  var cfg: Cfg
  var x: List[List[List[Cx]]]              // [group][chan][time]
  var chosen: List[List[int]]              // channels selected per group, in order
  var phase: str

  pure def power(ch: List[Cx]): int = ch.foldl(0, (s, v) => s + v.re * v.re + v.im * v.im)

  // level: the samples are multiples of 2^level; kind 1: constant channels, 2: the first half is silent, 3: real part zero
  action begin(c: Cfg): bool = all {
    cfg' = c,
    x' = {
      val raw = ints(c.seed, 2 * c.groups * c.chans * c.len, 40)
      val unit = if (c.level < 0) ONE / 2^(-c.level) else ONE * 2^c.level
      tab3(c.groups, c.chans, c.len, (g, ch, t) => {
        val i = 2 * ((g * c.chans + ch) * c.len + (if (c.kind == 1) 0 else t))
        if (c.kind == 2 and t < c.len / 2) C0
        else { re: if (c.kind == 3 and c.complex) 0 else raw[i] * unit, im: if (c.complex) raw[i + 1] * unit else 0 }
      })
    },
    chosen' = [], phase' = "start",
  }
  action small = {
    nondet groups = 1.to(3).oneOf()
    nondet chans = 1.to(5).oneOf()
    nondet len = 1.to(7).oneOf()
    nondet num = 1.to(chans).oneOf()
    nondet complex = Set(true, false).oneOf()
    nondet perm = 0.to(5).oneOf()
    nondet level = Set(0, -12, 12).oneOf()
    nondet kind = 0.to(6).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    begin({ groups: groups, chans: chans, len: len, num: num, complex: complex, perm: perm, seed: seed, level: level, kind: kind })
  }
  action large = {
    nondet groups = Set(1, 2, 9).oneOf()
    nondet chans = Set(2, 8, 13, 20).oneOf()
    nondet len = Set(30, 65, 128).oneOf()
    nondet num = Set(1, 2, chans - 1, chans).oneOf()
    nondet complex = Set(true, false).oneOf()
    nondet perm = 0.to(5).oneOf()
    nondet kind = 0.to(6).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    begin({ groups: groups, chans: chans, len: len, num: num, complex: complex, perm: perm, seed: seed, level: 0, kind: kind })
  }
  action init = any { small, small, small, large }

  // a step appends to every group its strongest channel not chosen yet
  action choose = all {
    phase != "done",
    val sofar = if (chosen == []) tab1(cfg.groups, _ => []) else chosen
    val grown = tab1(cfg.groups, g =>
      sofar[g].append(range(0, cfg.chans).foldl(-1, (best, c) =>
        if (sofar[g].select(d => d == c).length() > 0) best
        else if (best < 0) c
        else if (power(x[g][c]) > power(x[g][best])) c else best)))
    all {
      chosen' = grown,
      phase' = if (grown[0].length() == cfg.num) "done" else "choosing",
    },
    cfg' = cfg, x' = x,
  }
  action step = choose

  // no channel left out is stronger than one that was selected
  val strongest = phase == "done" implies 0.to(cfg.groups - 1).forall(g =>
    0.to(cfg.chans - 1).forall(c => chosen[g].select(d => d == c).length() > 0 or
      chosen[g].foldl(true, (ok, d) => ok and power(x[g][d]) >= power(x[g][c]))))
  // two channels of equal power: the order between them is left open
  pure def tied(xs: List[List[List[Cx]]], k: Cfg): bool = 0.to(k.groups - 1).exists(g =>
    tuples(0.to(k.chans - 1), 0.to(k.chans - 1)).exists(p => p._1 < p._2 and power(xs[g][p._1]) == power(xs[g][p._2])))
  val ordered = phase == "done" implies 0.to(cfg.groups - 1).forall(g =>
    1.to(cfg.num - 1).forall(i => power(x[g][chosen[g][i - 1]]) >= power(x[g][chosen[g][i]])))
}
