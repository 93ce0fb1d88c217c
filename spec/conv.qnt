// Linear convolution along one axis, with the truncation modes full, same and valid.
module conv {
  import fx.* from "./fx"
  type Cfg = { n1: int, n2: int, rows: int, share: int, mode: str, axis: int, seed: int, level: int, kind: int }
  var cfg: Cfg
  var a: List[List[int]]                   // [row][time]
  var b: List[List[int]]                   // one row when the second array is shared
  var full: List[List[int]]
  var out: List[List[int]]
  var phase: str

  // share 0: both arrays have all rows; 1: the second has one row for all; 2: the first has one row for all
  // kind 1: the second array has one sample that is not zero; 2: the first array ends in zeros; others: nothing special
  pure def start(c: Cfg): { a: List[List[int]], b: List[List[int]] } = {
    val r1 = if (c.share == 2) 1 else c.rows
    val r2 = if (c.share == 1) 1 else c.rows
    val ra = ints(c.seed, r1 * c.n1, c.level)
    val rb = ints(c.seed + 1, r2 * c.n2, c.level)
    { a: tab2(r1, c.n1, (r, t) => if (c.kind == 2 and t > c.n1 / 2) 0 else ra[r * c.n1 + t]),
      b: tab2(r2, c.n2, (r, t) => if (c.kind == 1 and t != c.n2 - 1) 0 else rb[r * c.n2 + t]) }
  }
  action begin(c: Cfg): bool = all {
    cfg' = c, a' = start(c).a, b' = start(c).b, full' = [], out' = [], phase' = "convolve",
  }
  action small = {
    nondet n1 = 1.to(12).oneOf()
    nondet n2 = 1.to(12).oneOf()
    nondet rows = 1.to(4).oneOf()
    nondet share = 0.to(2).oneOf()
    nondet mode = Set("full", "same", "valid").oneOf()
    nondet axis = 0.to(2).oneOf()
    nondet level = Set(9, 1, 100000).oneOf()
    nondet kind = 0.to(6).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    begin({ n1: n1, n2: n2, rows: rows, share: share, mode: mode, axis: axis, seed: seed, level: level, kind: kind })
  }
  // long arrays, also very unequal ones
  action large = {
    nondet n1 = Set(1, 2, 17, 33, 64, 100, 127, 128, 129, 200, 257).oneOf()
    nondet n2 = Set(1, 3, 16, 31, 65, 96, 128, 131, 210).oneOf()
    nondet rows = Set(1, 1, 2, 11).oneOf()
    nondet share = 0.to(2).oneOf()
    nondet mode = Set("full", "same", "valid").oneOf()
    nondet axis = 0.to(2).oneOf()
    nondet kind = 0.to(6).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    begin({ n1: n1, n2: n2, rows: if (n1 * n2 > 3000) 1 else rows, share: share, mode: mode, axis: axis, seed: seed, level: 9, kind: kind })
  }
  action init = any { small, small, large }
  pure def row(c: Cfg, which: int, r: int): int = if (c.share == which) 0 else r
  action convolve = all {
    phase == "convolve",
    full' = tab2(cfg.rows, cfg.n1 + cfg.n2 - 1, (r, t) =>
      range(if (t >= cfg.n2) t - cfg.n2 + 1 else 0, if (t < cfg.n1) t + 1 else cfg.n1).foldl(0, (s, k) =>
        s + a[row(cfg, 2, r)][k] * b[row(cfg, 1, r)][t - k])),
    phase' = "truncate",
    cfg' = cfg, a' = a, b' = b, out' = out,
  }
  // same: centred, as long as the first array; valid: where the arrays overlap completely
  action truncate = all {
    phase == "truncate",
    val n = cfg.n1 + cfg.n2 - 1
    val len = if (cfg.mode == "full") n else if (cfg.mode == "same") cfg.n1
              else rmax(cfg.n1, cfg.n2) - rmin(cfg.n1, cfg.n2) + 1
    val start = (n - len) / 2
    out' = tab2(cfg.rows, len, (r, t) => full[r][start + t]),
    phase' = "done",
    cfg' = cfg, a' = a, b' = b, full' = full,
  }
  action step = any { convolve, truncate }

  // total mass is the product of the masses
  val mass = full != [] implies 0.to(cfg.rows - 1).forall(r =>
    full[r].foldl(0, (s, v) => s + v) ==
      a[row(cfg, 2, r)].foldl(0, (s, v) => s + v) * b[row(cfg, 1, r)].foldl(0, (s, v) => s + v))
  // in valid mode every term of every sum exists
  val validIsComplete = (phase == "done" and cfg.mode == "valid") implies
    out[0].length() == rmax(cfg.n1, cfg.n2) - rmin(cfg.n1, cfg.n2) + 1
}
