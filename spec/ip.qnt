// AuxIVA / OverIVA with iterative projection (IP) updates.
module ip {
  import fx.* from "./fx"
  import srcmodel.* from "./srcmodel"
  import elem.* from "./elem"

  type Sig = List[List[List[Cx]]]          // [chan][freq][frame]
  type Mats = List[List[List[Cx]]]         // [freq][row][col]
  type Cfg = {
    C: int, S: int, F: int, N: int, iters: int, pb: int,
    model: str, epsDen: int, seed: int, den: int, kind: int, silent: Set[int]
  }

  var cfg: Cfg
  var X: Sig
  var Y: Sig
  var W: Mats                              // [freq][src][mic]
  var J: Mats                              // [freq][chan - src][src]
  var wt: List[List[List[int]]]
  var phase: str
  var it: int
  var pos: int
  var out: Sig
  var costs: List[int]                     // value of the objective at the start and after every iteration

  val eps = ofFrac(1, cfg.epsDen)
  val over = cfg.S < cfg.C

  pure def demix(c: Cfg, x: Sig, w: Mats): Sig =
    tab3(c.S, c.F, c.N, (s, f, n) => cdot(c.C, m => w[f][s][m], m => x[m][f][n]))

  // covariance of the input, E[X X^H]
  pure def covariance(c: Cfg, x: Sig, f: int): List[List[Cx]] =
    mtab(c.C, c.C, (a, b) => cdivr(cdot(c.N, n => x[a][f][n], n => conj(x[b][f][n])), ofInt(c.N)))

  // rows J of the background [J, -I], uncorrelated with the sources W X
  pure def background(c: Cfg, x: Sig, w: Mats, e: int): Mats =
    if (c.S == c.C) []
    else tab1(c.F, f => {
      val A = mmul(w[f], covariance(c, x, f))
      mherm(solveGeneral(mtab(c.S, c.S, (i, j) => A[i][j]), mtab(c.S, c.C - c.S, (i, j) => A[i][c.S + j]), e, e))
    })

  // the full square demixing matrix
  pure def fullW(c: Cfg, w: List[List[Cx]], j: List[List[Cx]]): List[List[Cx]] =
    mtab(c.C, c.C, (r, m) =>
      if (r < c.S) w[r][m]
      else if (m < c.S) j[r - c.S][m]
      else if (m == r) cneg(C1) else C0)

  // weighted covariance sum_n w x x^H
  pure def weighted(c: Cfg, x: Sig, w: List[int], f: int): List[List[Cx]] =
    mtab(c.C, c.C, (a, b) => csum(c.N, n => cscale(cmulc(x[a][f][n], x[b][f][n]), w[n])))

  // iterative projection: w_k = (W V)^-1 e_k, then unit weighted power
  pure def project(c: Cfg, x: Sig, w: List[List[Cx]], j: List[List[Cx]], wk: List[int], k: int, f: int, e: int): List[Cx] = {
    val V = weighted(c, x, wk, f)
    val WV = mmul(fullW(c, w, j), V)
    val sol = solveGeneral(WV, mtab(c.C, 1, (i, _) => if (i == k) C1 else C0), e, e)
    val nw = tab1(c.C, m => conj(sol[m][0]))
    val sc = csum2(c.C, c.C, (a, b) => cmul(cmulc(nw[a], nw[b]), V[a][b])).re
    val d = rsqrt(rmax(sc, e))
    tab1(c.C, m => cdivr(nw[m], d))
  }

  // objective that is reported on demand: norms of the frames against the volume of the demixing matrix
  pure def objective(c: Cfg, y: Sig, w: Mats, j: Mats): int =
    rsum2(c.S, c.N, (s, n) => rsqrt(range(0, c.F).foldl(0, (a, f) => a + mag2(y[s][f][n]))))
      - c.N * range(0, c.F).foldl(0, (a, f) => a + pivots2(fullW(c, w[f], if (c.S < c.C) j[f] else [])).foldl(0, (l, v) => l + rlog(rmax(v, 1))))

  // ------------------------------------------------------------------ actions
  action pickAny = {
    nondet C = Set(1, 2, 3, 4).oneOf()
    nondet S = 1.to(C).oneOf()
    nondet F = 1.to(3).oneOf()
    nondet N = Set(C + 2, 2 * C + 3, 3 * C + 5).oneOf()
    nondet iters = 0.to(3).oneOf()
    nondet pb = (-1).to(C - 1).oneOf()
    nondet model = Set("laplace", "gauss", "table").oneOf()
    nondet epsDen = Set(100000, 1000, 50000).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    nondet den = Set(4, 1, 64, 0, 5000).oneOf()
    nondet kind = 0.to(13).oneOf()
    nondet silent = Set(Set(), Set(0), Set(2)).oneOf()
    start({ C: C, S: S, F: F, N: N, iters: iters, pb: pb, model: model, epsDen: epsDen, seed: seed, den: den, kind: kind,
            silent: if (N > 2 * C) silent else Set() })
  }
  // many iterations on a small problem
  action pickLong = {
    nondet C = Set(2, 3).oneOf()
    nondet S = 1.to(C).oneOf()
    nondet iters = Set(6, 9, 12, 25).oneOf()
    nondet pb = (-1).to(C - 1).oneOf()
    nondet model = Set("laplace", "gauss").oneOf()
    nondet seed = 0.to(2^40).oneOf()
    start({ C: C, S: S, F: 2, N: 9, iters: iters, pb: pb, model: model, epsDen: 100000, seed: seed, den: 4, kind: 0, silent: Set() })
  }
  // many microphones
  action pickWide = {
    nondet C = Set(5, 6, 8).oneOf()
    nondet S = 1.to(C).oneOf()
    nondet pb = (-1).to(C - 1).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    start({ C: C, S: S, F: 1, N: 2 * C + 2, iters: 1, pb: pb, model: "laplace", epsDen: 100000, seed: seed, den: 4, kind: 0, silent: Set() })
  }
  // long recordings
  action pickTall = {
    nondet C = 1.to(3).oneOf()
    nondet S = 1.to(C).oneOf()
    nondet N = Set(35, 66, 131).oneOf()
    nondet pb = (-1).to(C - 1).oneOf()
    nondet model = Set("laplace", "gauss").oneOf()
    nondet seed = 0.to(2^40).oneOf()
    start({ C: C, S: S, F: 1, N: N, iters: 1, pb: pb, model: model, epsDen: 100000, seed: seed, den: 4, kind: 0, silent: Set() })
  }
  action init = {
    nondet profile = 0.to(10).oneOf()
    if (profile == 2) pickTall else if (profile == 0) pickLong else if (profile == 1) pickWide else pickAny
  }

  action start(c: Cfg): bool = {
    val raw = recording(c.seed, c.C, c.F, c.N, c.den, c.kind)
    val x = tab3(c.C, c.F, c.N, (m, f, n) => if (c.silent.contains(n)) C0 else raw[m][f][n])
    val w0 = tab3(c.F, c.S, c.C, (_, s, m) => if (s == m) C1 else C0)
    all {
      cfg' = c, X' = x, W' = w0, Y' = x.slice(0, c.S),
      J' = background(c, x, w0, ofFrac(1, c.epsDen)),
      costs' = [objective(c, x.slice(0, c.S), w0, background(c, x, w0, ofFrac(1, c.epsDen)))],
      wt' = [], it' = 0, pos' = 0, out' = [],
      phase' = if (c.iters == 0) "finish" else "model",
    }
  }

  action callModel = all {
    phase == "model",
    wt' = applyModel(cfg.model, Y, cfg.seed + 7 * it + 1),
    phase' = "normalise",
    costs' = costs, cfg' = cfg, X' = X, Y' = Y, W' = W, J' = J, it' = it, pos' = 0, out' = out,
  }

  action normalise = all {
    phase == "normalise",
    val g = tab1(cfg.S, s => rmax(rsum2(cfg.F, cfg.N, (f, n) => mag2(Y[s][f][n])) / (cfg.F * cfg.N), eps))
    val d = tab1(cfg.S, s => rmax(rsqrt(g[s]), eps))
    all {
      Y' = tab3(cfg.S, cfg.F, cfg.N, (s, f, n) => cdivr(Y[s][f][n], d[s])),
      W' = tab3(cfg.F, cfg.S, cfg.C, (f, s, m) => cdivr(W[f][s][m], d[s])),
      wt' = tab3(cfg.S, cfg.F, cfg.N, (s, f, n) => rmul(wt[s][f][n], g[s])),
    },
    phase' = "source",
    costs' = costs, cfg' = cfg, X' = X, J' = J, it' = it, pos' = 0, out' = out,
  }

  action updateSource = all {
    phase == "source",
    val j = background(cfg, X, W, eps)
    val rows = tab1(cfg.F, f => project(cfg, X, W[f], if (over) j[f] else [], wt[pos][f], pos, f, eps))
    all {
      J' = j,
      W' = tab1(cfg.F, f => W[f].replaceAt(pos, rows[f])),
    },
    pos' = if (pos + 1 < cfg.S) pos + 1 else 0,
    phase' = if (pos + 1 < cfg.S) "source" else "demix",
    costs' = costs, cfg' = cfg, X' = X, Y' = Y, wt' = wt, it' = it, out' = out,
  }

  action endIteration = all {
    phase == "demix",
    val y = demix(cfg, X, W)
    all { Y' = y, costs' = costs.append(objective(cfg, y, W, J)) },
    it' = it + 1,
    phase' = if (it + 1 < cfg.iters) "model" else "finish",
    cfg' = cfg, X' = X, W' = W, J' = J, wt' = wt, pos' = 0, out' = out,
  }

  // image of every source at the reference microphone: row `pb` of the inverse
  pure def pbWeights(c: Cfg, w: List[List[Cx]], j: List[List[Cx]]): List[List[Cx]] = {
    val e = ofFrac(1, 100000)
    val B = mtab(c.S, c.S, (s, i) => cadd(w[s][i], csum(c.C - c.S, b => cmul(w[s][c.S + b], j[b][i]))))
    val rhs = mtab(c.S, 1, (i, _) => if (c.pb < c.S) { if (i == c.pb) C1 else C0 } else j[c.pb - c.S][i])
    solveGeneral(mtr(B), rhs, e, e)
  }

  action finish = all {
    phase == "finish",
    out' = if (cfg.pb >= 0) {
             val a = tab1(cfg.F, f => pbWeights(cfg, W[f], if (over) J[f] else []))
             tab3(cfg.S, cfg.F, cfg.N, (s, f, n) => cmul(a[f][s][0], Y[s][f][n]))
           } else Y,
    phase' = "done",
    costs' = costs, cfg' = cfg, X' = X, Y' = Y, W' = W, J' = J, wt' = wt, it' = it, pos' = 0,
  }

  action step = any { callModel, normalise, updateSource, endIteration, finish }

  // ------------------------------------------------------------------ properties of the design
  pure def near(a: Cx, b: Cx, tol: int): bool = rabs(a.re - b.re) <= tol and rabs(a.im - b.im) <= tol
  // whenever the source model is shown an estimate, it is the demixed input
  val estimateIsDemixed = (phase == "model" or phase == "finish") implies {
    val d = demix(cfg, X, W)
    tuples(0.to(cfg.S - 1), 0.to(cfg.F - 1), 0.to(cfg.N - 1)).forall(p =>
      near(d[p._1][p._2][p._3], Y[p._1][p._2][p._3], ONE / 10^9))
  }
  // after its update a source has at most unit weighted power in every bin
  val unitPower = (phase == "source" and pos > 0) implies
    0.to(cfg.F - 1).forall(f => {
      val w = W[f][pos - 1]
      val V = weighted(cfg, X, wt[pos - 1][f], f)
      csum2(cfg.C, cfg.C, (a, b) => cmul(cmulc(w[a], w[b]), V[a][b])).re <= ONE + ONE / 10^6
    })
}
