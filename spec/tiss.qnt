// T-ISS: joint separation and dereverberation by iterative source steering.
//
// One named action per step of the algorithm.  Observable events of the real
// code: every call of the source model (argument = the current estimate Y) and
// the value returned by the separator.
module tiss {
  import fx.* from "./fx"
  import srcmodel.* from "./srcmodel"

  type Sig = List[List[List[Cx]]]          // [chan][freq][frame]
  type Cfg = {
    C: int, S: int, F: int, N: int,        // microphones, sources, bins, frames
    taps: int, delay: int, iters: int,
    pb: int,                               // reference microphone, -1: no projection back
    model: str, epsDen: int,               // eps = 1 / epsDen
    seed: int, den: int, kind: int, silent: Set[int]  // how X was made
  }

  var cfg: Cfg
  var X: Sig
  var Y: Sig
  var W: Sig                               // [src][freq][mic]
  var H: List[List[List[List[Cx]]]]        // [src][freq][mic][tap]
  var J: Sig                               // [chan - src][freq][src], background part
  var wt: List[List[List[int]]]            // weights of the running iteration
  var phase: str
  var it: int
  var pos: int                               // position inside a phase
  var out: Sig

  val eps = ofFrac(1, cfg.epsDen)
  val over = cfg.S < cfg.C
  pure def bgEps: int = ofFrac(1, 1000)

  // the delayed input: tap t of frame n is frame n + t - taps - delay
  pure def lagOf(c: Cfg, t: int): int = c.taps + c.delay - t
  pure def xbarAt(x: Sig, c: Cfg, m: int, f: int, t: int, n: int): Cx =
    if (n - lagOf(c, t) < 0) C0 else x[m][f][n - lagOf(c, t)]

  pure def demix(x: Sig, c: Cfg, w: Sig, h: List[List[List[List[Cx]]]]): Sig =
    tab3(c.S, c.F, c.N, (s, f, n) =>
      csub(cdot(c.C, m => w[s][f][m], m => x[m][f][n]),
           csum2(c.C, c.taps, (m, t) => cmul(h[s][f][m][t], xbarAt(x, c, m, f, t, n)))))

  // Rows J of the background demixing matrix [J, -I], chosen so that the
  // background J X_1 - X_2 is uncorrelated with the current sources.
  pure def background(c: Cfg, x: Sig, y: Sig, e: int): Sig = {
    val byFreq = tab1(c.F, f => {
      // E[Y X^H]
      val A = mtab(c.S, c.C, (s, m) => cdivr(cdot(c.N, n => y[s][f][n], n => conj(x[m][f][n])), ofInt(c.N)))
      val L = mtab(c.S, c.S, (i, j) => A[i][j])
      val R = mtab(c.S, c.C - c.S, (i, j) => A[i][c.S + j])
      mherm(solveGeneral(L, R, e, e))
    })
    tab3(c.C - c.S, c.F, c.S, (b, f, s) => byFreq[f][b][s])
  }
  pure def zAt(c: Cfg, x: Sig, j: Sig, b: int, f: int, n: int): Cx =
    csub(cdot(c.S, s => j[b][f][s], s => x[s][f][n]), x[c.S + b][f][n])

  // ------------------------------------------------------------------ actions
  action pickAny = {
    nondet C = 1.to(4).oneOf()
    nondet S = 1.to(C).oneOf()
    nondet F = 1.to(3).oneOf()
    nondet N = Set(2, C + 3, 7, 11).oneOf()
    nondet taps = 0.to(3).oneOf()
    nondet delay = 0.to(3).oneOf()
    nondet iters = 0.to(3).oneOf()
    nondet pb = (-1).to(C - 1).oneOf()
    nondet model = Set("laplace", "gauss", "table").oneOf()
    nondet epsDen = Set(100000, 1000, 20).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    nondet den = Set(4, 1, 64, 0, 5000).oneOf()
    nondet kind = 0.to(13).oneOf()
    nondet silent = Set(Set(), Set(0), Set(1, 2)).oneOf()
    start({ C: C, S: S, F: F, N: N, taps: taps, delay: delay, iters: iters, pb: pb, model: model,
            epsDen: epsDen, seed: seed, den: den, kind: kind, silent: if (N > 6) silent else Set() })
  }
  // many iterations
  action pickLong = {
    nondet C = 1.to(3).oneOf()
    nondet S = 1.to(C).oneOf()
    nondet taps = 0.to(1).oneOf()
    nondet iters = Set(5, 8, 11, 25).oneOf()
    nondet pb = (-1).to(C - 1).oneOf()
    nondet model = Set("laplace", "gauss").oneOf()
    nondet seed = 0.to(2^40).oneOf()
    start({ C: C, S: S, F: 2, N: 9, taps: taps, delay: 1, iters: iters, pb: pb, model: model,
            epsDen: 1000, seed: seed, den: 4, kind: 0, silent: Set() })
  }
  // many microphones
  action pickWide = {
    nondet C = Set(5, 6, 8, 10).oneOf()
    nondet S = 1.to(C).oneOf()
    nondet taps = 0.to(1).oneOf()
    nondet pb = (-1).to(C - 1).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    start({ C: C, S: S, F: 1, N: C + 9, taps: taps, delay: 0, iters: 2, pb: pb, model: "laplace",
            epsDen: 1000, seed: seed, den: 4, kind: 0, silent: Set() })
  }
  // long dereverberation filters, also longer than the signal
  action pickDeep = {
    nondet C = 1.to(2).oneOf()
    nondet S = 1.to(C).oneOf()
    nondet taps = 4.to(9).oneOf()
    nondet delay = 0.to(6).oneOf()
    nondet N = Set(5, 16, 24).oneOf()
    nondet pb = (-1).to(C - 1).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    start({ C: C, S: S, F: 1, N: N, taps: taps, delay: delay, iters: 2, pb: pb, model: "laplace",
            epsDen: 1000, seed: seed, den: 4, kind: 0, silent: Set() })
  }
  // long recordings
  action pickTall = {
    nondet C = 1.to(3).oneOf()
    nondet S = 1.to(C).oneOf()
    nondet taps = 0.to(2).oneOf()
    nondet N = Set(35, 66, 131).oneOf()
    nondet pb = (-1).to(C - 1).oneOf()
    nondet model = Set("laplace", "gauss").oneOf()
    nondet seed = 0.to(2^40).oneOf()
    start({ C: C, S: S, F: 1, N: N, taps: taps, delay: 1, iters: 1, pb: pb, model: model,
            epsDen: 100000, seed: seed, den: 4, kind: 0, silent: Set() })
  }
  action init = {
    nondet profile = 0.to(12).oneOf()
    if (profile == 3) pickTall else if (profile == 0) pickLong else if (profile == 1) pickWide else if (profile == 2) pickDeep else pickAny
  }

  action start(c: Cfg): bool = {
    val raw = recording(c.seed, c.C, c.F, c.N, c.den, c.kind)
    val x = tab3(c.C, c.F, c.N, (m, f, n) => if (c.silent.contains(n)) C0 else raw[m][f][n])
    val w0 = tab3(c.S, c.F, c.C, (s, _, m) => if (s == m) C1 else C0)
    all {
      cfg' = c, X' = x, W' = w0,
      H' = tab4(c.S, c.F, c.C, c.taps, (_, _, _, _) => C0),
      Y' = x.slice(0, c.S),
      J' = [], wt' = [], it' = 0, pos' = 0, out' = [],
      phase' = if (c.iters == 0) "finish" else "model",
    }
  }

  // the source model sees the current estimate
  action callModel = all {
    phase == "model",
    wt' = applyModel(cfg.model, Y, cfg.seed + 7 * it + 1),
    phase' = "normalise",
    cfg' = cfg, X' = X, Y' = Y, W' = W, H' = H, J' = J, it' = it, pos' = 0, out' = out,
  }

  // every source is scaled to unit power
  action normalise = all {
    phase == "normalise",
    val g = tab1(cfg.S, s => rmax(rsum2(cfg.F, cfg.N, (f, n) => mag2(Y[s][f][n])) / (cfg.F * cfg.N), eps))
    val d = tab1(cfg.S, s => rmax(rsqrt(g[s]), eps))
    all {
      Y' = tab3(cfg.S, cfg.F, cfg.N, (s, f, n) => cdivr(Y[s][f][n], d[s])),
      W' = tab3(cfg.S, cfg.F, cfg.C, (s, f, m) => cdivr(W[s][f][m], d[s])),
      H' = tab4(cfg.S, cfg.F, cfg.C, cfg.taps, (s, f, m, t) => cdivr(H[s][f][m][t], d[s])),
      wt' = tab3(cfg.S, cfg.F, cfg.N, (s, f, n) => rmul(wt[s][f][n], g[s])),
    },
    phase' = if (over) "background" else "source",
    cfg' = cfg, X' = X, J' = J, it' = it, pos' = 0, out' = out,
  }

  action updateBackground = all {
    phase == "background",
    J' = background(cfg, X, Y, bgEps),
    phase' = "source",
    cfg' = cfg, X' = X, Y' = Y, W' = W, H' = H, wt' = wt, it' = it, pos' = 0, out' = out,
  }

  // weighted projection coefficients of every source on a regressor
  pure def steer(c: Cfg, y: Sig, w: List[List[List[int]]], reg: (int, int) => Cx, norm: int, e: int): List[List[{ v: Cx, d: int }]] =
    tab2(c.S, c.F, (s, f) => {
      val num = csum(c.N, n => cscale(cmulc(y[s][f][n], reg(f, n)), w[s][f][n]))
      val den = rsum(c.N, n => rmul(w[s][f][n], mag2(reg(f, n))))
      { v: cdivr(cx(num.re / norm, num.im / norm), rmax(den / norm, e)), d: den / norm }
    })

  action steerSource = all {
    phase == "source",
    val u = steer(cfg, Y, wt, (f, n) => Y[pos][f][n], cfg.N, eps)
    val v = tab2(cfg.S, cfg.F, (s, f) =>
      if (s == pos) cx(ONE - rdiv(ONE, rsqrt(rmax(u[s][f].d, eps))), 0) else u[s][f].v)
    all {
      Y' = tab3(cfg.S, cfg.F, cfg.N, (s, f, n) => csub(Y[s][f][n], cmul(v[s][f], Y[pos][f][n]))),
      W' = tab3(cfg.S, cfg.F, cfg.C, (s, f, m) => csub(W[s][f][m], cmul(v[s][f], W[pos][f][m]))),
      H' = tab4(cfg.S, cfg.F, cfg.C, cfg.taps, (s, f, m, t) => csub(H[s][f][m][t], cmul(v[s][f], H[pos][f][m][t]))),
    },
    pos' = if (pos + 1 < cfg.S) pos + 1 else 0,
    phase' = if (pos + 1 < cfg.S) "source" else if (over) "backsteer" else if (cfg.taps > 0) "tap" else "endIter",
    cfg' = cfg, X' = X, J' = J, wt' = wt, it' = it, out' = out,
  }

  action steerBackground = all {
    phase == "backsteer",
    val z = tab2(cfg.F, cfg.N, (f, n) => zAt(cfg, X, J, pos, f, n))
    val u = steer(cfg, Y, wt, (f, n) => z[f][n], 1, eps)
    all {
      Y' = tab3(cfg.S, cfg.F, cfg.N, (s, f, n) => csub(Y[s][f][n], cmul(u[s][f].v, z[f][n]))),
      W' = tab3(cfg.S, cfg.F, cfg.C, (s, f, m) =>
        if (m < cfg.S) csub(W[s][f][m], cmul(u[s][f].v, J[pos][f][m]))
        else if (m == cfg.S + pos) cadd(W[s][f][m], u[s][f].v)
        else W[s][f][m]),
    },
    pos' = if (pos + 1 < cfg.C - cfg.S) pos + 1 else 0,
    phase' = if (pos + 1 < cfg.C - cfg.S) "backsteer" else if (cfg.taps > 0) "tap" else "endIter",
    cfg' = cfg, X' = X, H' = H, J' = J, wt' = wt, it' = it, out' = out,
  }

  action steerTap = all {
    phase == "tap",
    val m = pos / cfg.taps
    val t = pos % cfg.taps
    val u = steer(cfg, Y, wt, (f, n) => xbarAt(X, cfg, m, f, t, n), 1, eps)
    all {
      Y' = tab3(cfg.S, cfg.F, cfg.N, (s, f, n) =>
        csub(Y[s][f][n], cmul(u[s][f].v, xbarAt(X, cfg, m, f, t, n)))),
      H' = tab2(cfg.S, cfg.F, (s, f) => H[s][f].replaceAt(m, H[s][f][m].replaceAt(t, cadd(H[s][f][m][t], u[s][f].v)))),
    },
    pos' = if (pos + 1 < cfg.C * cfg.taps) pos + 1 else 0,
    phase' = if (pos + 1 < cfg.C * cfg.taps) "tap" else "endIter",
    cfg' = cfg, X' = X, W' = W, J' = J, wt' = wt, it' = it, out' = out,
  }

  action endIteration = all {
    phase == "endIter",
    it' = it + 1,
    phase' = if (it + 1 < cfg.iters) "model" else "finish",
    cfg' = cfg, X' = X, Y' = Y, W' = W, H' = H, J' = J, wt' = wt, pos' = 0, out' = out,
  }

  // column `ref` of the inverse of the full demixing matrix, restricted to the sources
  pure def pbWeights(c: Cfg, w: Sig, j: Sig): List[List[Cx]] = {
    val e = ofFrac(1, 100000)
    val byF = tab1(c.F, f => {
      val B = mtab(c.S, c.S, (s, i) =>
        cadd(w[s][f][i], csum(c.C - c.S, b => cmul(w[s][f][c.S + b], j[b][f][i]))))
      val rhs = mtab(c.S, 1, (i, _) =>
        if (c.pb < c.S) { if (i == c.pb) C1 else C0 } else j[c.pb - c.S][f][i])
      solveGeneral(mtr(B), rhs, e, e)
    })
    tab2(c.S, c.F, (s, f) => byF[f][s][0])
  }

  action finish = all {
    phase == "finish",
    out' = if (cfg.pb >= 0 and cfg.iters > 0) {
             val a = pbWeights(cfg, W, J)
             tab3(cfg.S, cfg.F, cfg.N, (s, f, n) => cmul(a[s][f], Y[s][f][n]))
           } else Y,
    phase' = "done",
    cfg' = cfg, X' = X, Y' = Y, W' = W, H' = H, J' = J, wt' = wt, it' = it, pos' = 0,
  }

  action step = any {
    callModel, normalise, updateBackground, steerSource, steerBackground, steerTap, endIteration, finish,
  }

  // ------------------------------------------------------------------ properties of the design
  pure def near(a: Cx, b: Cx, tol: int): bool = rabs(a.re - b.re) <= tol and rabs(a.im - b.im) <= tol
  // the estimate is always the linear filter (W, H) applied to the input
  val filterConsistent = phase == "done" or {
    val d = demix(X, cfg, W, H)
    tuples(0.to(cfg.S - 1), 0.to(cfg.F - 1), 0.to(cfg.N - 1)).forall(p =>
      near(d[p._1][p._2][p._3], Y[p._1][p._2][p._3], ONE / 10^9 + cabs(Y[p._1][p._2][p._3]) / 10^9))
  }
  // the first delay+1 frames are never altered by dereverberation: they are W X
  val causal = phase == "done" or
    0.to(cfg.S - 1).forall(s => 0.to(cfg.F - 1).forall(f => 0.to(rmin(cfg.delay, cfg.N - 1)).forall(n =>
      near(Y[s][f][n], cdot(cfg.C, m => W[s][f][m], m => X[m][f][n]), ONE / 10^9 + cabs(Y[s][f][n]) / 10^9))))
}
