// WPE dereverberation: delayed multichannel linear prediction with
// iteratively re-estimated frame weights.
module wpe {
  import fx.* from "./fx"

  type Sig = List[List[List[Cx]]]
  type Cfg = { C: int, F: int, N: int, taps: int, delay: int, iters: int, model: str, epsDen: int, seed: int, den: int, kind: int,
               silent: Set[int] }

  var cfg: Cfg
  var X: Sig
  var Y: Sig
  var wt: List[List[int]]                  // [freq][frame]
  var G: List[List[List[Cx]]]              // [freq][mic * taps + tap][channel], prediction filters
  var phase: str
  var it: int

  val eps = ofFrac(1, cfg.epsDen)

  // regressor r = m * taps + t of frame n: microphone m, lag delay + taps - t
  pure def regAt(c: Cfg, x: Sig, f: int, r: int, n: int): Cx = {
    val m = r / c.taps
    val lag = c.delay + c.taps - r % c.taps
    if (n < lag) C0 else x[m][f][n - lag]
  }

  // 1 / mean power over the channels, normalised to sum to one over the frames
  pure def defaultWeights(c: Cfg, y: Sig, e: int): List[List[int]] =
    tab1(c.F, f => {
      val w = tab1(c.N, n => rdiv(ONE, rmax(rsum(c.C, m => mag2(y[m][f][n])) / c.C, e)))
      val s = rsum(c.N, n => w[n])
      tab1(c.N, n => rdiv(w[n], s))
    })

  pure def filters(c: Cfg, x: Sig, w: List[List[int]], e: int): List[List[List[Cx]]] =
    tab1(c.F, f => {
      val L = c.C * c.taps
      val reg = tab2(L, c.N, (r, n) => regAt(c, x, f, r, n))
      val acm = mtab(L, L, (a, b) => csum(c.N, n => cscale(cmulc(reg[a][n], reg[b][n]), w[f][n])))
      val xcv = mtab(L, c.C, (a, m) => csum(c.N, n => cscale(cmulc(reg[a][n], x[m][f][n]), w[f][n])))
      solveLoaded(acm, xcv, e)
    })

  pure def dereverb(c: Cfg, x: Sig, g: List[List[List[Cx]]]): Sig =
    tab3(c.C, c.F, c.N, (m, f, n) =>
      csub(x[m][f][n], csum(c.C * c.taps, r => cmulc(regAt(c, x, f, r, n), g[f][r][m]))))

  action init = {
    nondet C = Set(1, 2, 3, 4, 6).oneOf()
    nondet F = 1.to(3).oneOf()
    nondet taps = 1.to(if (C > 4) 1 else if (C > 2) 2 else if (C > 1) 4 else 9).oneOf()
    nondet delay = 0.to(4).oneOf()
    nondet N = Set(delay + 2, taps + delay + 3, 14, 60, if (C * taps < 4) 131 else 20).oneOf()
    nondet iters = Set(0, 1, 2, 3, if (C * taps < 4 and N < 20) 7 else 1).oneOf()
    nondet model = Set("default", "default", "table").oneOf()
    nondet epsDen = Set(100000, 1000, 50).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    nondet den = Set(4, 1, 40, 0, 1000).oneOf()
    nondet kind = 0.to(13).oneOf()
    nondet silent = Set(Set(), Set(0), Set(3)).oneOf()
    val c = { C: C, F: F, N: N, taps: taps, delay: delay, iters: iters, model: model, epsDen: epsDen, seed: seed,
              den: den, kind: kind, silent: silent }
    val raw = recording(seed, C, F, N, den, kind)
    val x = tab3(C, F, N, (m, f, n) => if (silent.contains(n)) C0 else raw[m][f][n])
    all {
      cfg' = c, X' = x, Y' = x, wt' = [], G' = [], it' = 0,
      phase' = if (iters == 0) "done" else "weights",
    }
  }

  action estimateWeights = all {
    phase == "weights",
    wt' = if (cfg.model == "table") {
            val raw = ints(cfg.seed + 7 * it + 1, cfg.F * cfg.N, 8)
            tab2(cfg.F, cfg.N, (f, n) => ofFrac(raw[f * cfg.N + n] + 9, 8))
          } else defaultWeights(cfg, Y, eps),
    phase' = "filter",
    cfg' = cfg, X' = X, Y' = Y, G' = G, it' = it,
  }

  action updateFilter = all {
    phase == "filter",
    val g = filters(cfg, X, wt, eps)
    all { G' = g, Y' = dereverb(cfg, X, g) },
    it' = it + 1,
    phase' = if (it + 1 < cfg.iters) "weights" else "done",
    cfg' = cfg, X' = X, wt' = wt,
  }

  action step = any { estimateWeights, updateFilter }

  // ------------------------------------------------------------------ properties of the design
  // the first delay + 1 frames have no past to be predicted from
  val directUntouched =
    0.to(cfg.C - 1).forall(m => 0.to(cfg.F - 1).forall(f => 0.to(rmin(cfg.delay, cfg.N - 1)).forall(n =>
      Y[m][f][n] == X[m][f][n])))
  // prediction never increases the weighted power it minimises
  val powerReduced = (phase != "filter" and it > 0) implies
    0.to(cfg.F - 1).forall(f => 0.to(cfg.C - 1).forall(m => {
      val before = rsum(cfg.N, n => rmul(wt[f][n], mag2(X[m][f][n])))
      val after = rsum(cfg.N, n => rmul(wt[f][n], mag2(Y[m][f][n])))
      phase == "weights" or phase == "done" implies after <= before + ONE / 10^9
    }))
}
