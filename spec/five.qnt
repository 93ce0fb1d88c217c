// FIVE: extraction of one source by iterative SINR maximisation.
// The first frequency bin (DC) is not processed and comes out as zero.
module five {
  import fx.* from "./fx"
  import eig.* from "./eig"
  import srcmodel.* from "./srcmodel"

  type Sig = List[List[List[Cx]]]
  type Cfg = { C: int, F: int, N: int, iters: int, pb: int, pow: int, model: str, seed: int, den: int, kind: int }

  var cfg: Cfg
  var X: Sig                               // input [chan][freq][frame]
  var Q: List[List[List[Cx]]]              // whitening matrices [freq - 1][row][mic]
  var Qi: List[List[List[Cx]]]             // their inverses [freq - 1][mic][row]
  var Xw: Sig                              // whitened input [row][freq - 1][frame]
  var Y: Sig                               // [1][freq - 1][frame]
  var wt: List[List[List[int]]]
  var phase: str
  var it: int
  var out: Sig

  pure val LOAD = ofFrac(1, 100000)

  pure def covariance(x: Sig, nn: int, f: int): List[List[Cx]] =
    mtab(x.length(), x.length(), (a, b) => cdivr(cdot(nn, n => x[a][f][n], n => conj(x[b][f][n])), ofInt(nn)))

  // whitening by principal components, largest first
  pure def whitener(R: List[List[Cx]]): { Q: List[List[Cx]], Qi: List[List[Cx]] } = {
    val d = eighAsc(R)
    val n = R.length()
    val s = tab1(n, i => rsqrt(rmax(d.vals[n - 1 - i], LOAD)))
    { Q: mtab(n, n, (i, m) => cdivr(conj(d.vecs[n - 1 - i][m]), s[i])),
      Qi: mtab(n, n, (m, i) => cscale(d.vecs[n - 1 - i][m], s[i])) }
  }

  pure def vnorm(v: List[Cx]): int = rsqrt(v.foldl(0, (a, z) => a + mag2(z)))

  // the eigenvector of the smallest eigenvalue, and the inverse eigenvalue
  pure def smallest(V: List[List[Cx]], pow: int): { v: List[Cx], inv: int } = {
    val n = V.length()
    if (pow < 0) {
      val d = eighAsc(V)
      { v: d.vecs[0], inv: rdiv(ONE, rmax(d.vals[0], LOAD)) }
    } else {
      val Vi = msolve(mload(V, loadFactor(V, LOAD)), meye(n, n))
      val x0 = tab1(n, i => Vi[i][0])
      val e0 = vnorm(x0)
      range(1, pow).foldl({ v: tab1(n, i => cdivr(x0[i], e0)), inv: e0 }, (s, _) => {
        val y = range(0, n).foldl([], (acc, i) => acc.append(cdot(n, m => Vi[i][m], m => s.v[m])))
        val e = vnorm(y)
        { v: y.foldl([], (acc, z) => acc.append(cdivr(z, e))), inv: e }
      })
    }
  }

  action init = {
    nondet C = Set(1, 2, 3, 4, 6).oneOf()
    nondet F = 2.to(4).oneOf()
    nondet N0 = Set(C + 3, 2 * C + 3, 14, 50, if (C < 4) 131 else 20).oneOf()
    nondet iters0 = Set(0, 1, 2, 3, 5, 14).oneOf()
    val iters = if (C > 4) rmin(iters0, 1) else if (C > 2) rmin(iters0, 5) else iters0
    nondet pb = (-1).to(C - 1).oneOf()
    nondet pow = Set(-1, 1, 2, 4, 7).oneOf()
    nondet model = Set("laplace", "gauss", "table").oneOf()
    nondet seed = 0.to(2^40).oneOf()
    nondet den = Set(4, 1, 16, 0, 300, 2000).oneOf()
    nondet kind0 = 0.to(13).oneOf()
    // the covariances have full rank
    val kind = if (Set(2, 3, 4).contains(kind0)) 0 else kind0
    val N = if (N0 < 20 or F * iters < 7) N0 else 12
    val c = { C: C, F: F, N: N, iters: iters, pb: pb, pow: pow, model: model, seed: seed, den: den, kind: kind }
    val x = recording(seed, C, F, N, den, kind)
    val R = tab1(F - 1, f => covariance(x, N, f + 1))
    val w = tab1(F - 1, f => whitener(R[f]))
    val q = tab1(F - 1, f => w[f].Q)
    val xw = tab3(C, F - 1, N, (i, f, n) => cdot(C, m => q[f][i][m], m => x[m][f + 1][n]))
    // start from the largest principal component, scaled to the reference: E[x y^*]
    val z = tab1(F - 1, f => if (pb < 0) C1 else conj(csum(C, m => cmul(q[f][0][m], R[f][m][pb]))))
    all {
      cfg' = c, X' = x, Q' = q, Qi' = tab1(F - 1, f => w[f].Qi), Xw' = xw,
      Y' = [tab2(F - 1, N, (f, n) => cmul(z[f], xw[0][f][n]))],
      wt' = [], it' = 0, out' = [],
      phase' = if (iters == 0) "finish" else "model",
    }
  }

  action callModel = all {
    phase == "model",
    wt' = applyModel(cfg.model, Y, cfg.seed + 7 * it + 1),
    phase' = "update",
    cfg' = cfg, X' = X, Q' = Q, Qi' = Qi, Xw' = Xw, Y' = Y, it' = it, out' = out,
  }

  action update = all {
    phase == "update",
    val w = tab1(cfg.F - 1, f => {
      val V = mtab(cfg.C, cfg.C, (a, b) =>
        csum(cfg.N, n => cscale(cmulc(Xw[a][f][n], Xw[b][f][n]), wt[0][f][n])))
      val e = smallest(V, cfg.pow)
      // image at the reference microphone, or unit weighted power
      val g = if (cfg.pb >= 0) csum(cfg.C, i => cmul(Qi[f][cfg.pb][i], e.v[i])) else cx(rsqrt(e.inv), 0)
      tab1(cfg.C, i => cmulc(g, e.v[i]))
    })
    Y' = [tab2(cfg.F - 1, cfg.N, (f, n) => csum(cfg.C, i => cmul(w[f][i], Xw[i][f][n])))],
    it' = it + 1,
    phase' = if (it + 1 < cfg.iters) "model" else "finish",
    cfg' = cfg, X' = X, Q' = Q, Qi' = Qi, Xw' = Xw, wt' = wt, out' = out,
  }

  action finish = all {
    phase == "finish",
    out' = [tab2(cfg.F, cfg.N, (f, n) => if (f == 0) C0 else Y[0][f - 1][n])],
    phase' = "done",
    cfg' = cfg, X' = X, Q' = Q, Qi' = Qi, Xw' = Xw, Y' = Y, wt' = wt, it' = it,
  }

  action step = any { callModel, update, finish }

  // ------------------------------------------------------------------ properties of the design
  // the whitened input has identity covariance unless an eigenvalue was floored
  val whitened = 0.to(cfg.F - 2).forall(f => {
    val R = covariance(Xw, cfg.N, f)
    0.to(cfg.C - 1).forall(i => 0.to(cfg.C - 1).forall(j =>
      mag2(csub(R[i][j], if (i == j) C1 else C0)) < ONE / 10^12))
  }) or cfg.N <= cfg.C or cfg.den >= 300 or cfg.kind == 7   // (faint recordings: the floor of the eigenvalues counts)
  // projected back, the estimate is the least squares image of the source: the error is uncorrelated with it
  val leastSquaresImage = (phase == "done" and cfg.pb >= 0 and cfg.den < 300 and cfg.kind != 7) implies
    1.to(cfg.F - 1).forall(f => {
      val ry = cdot(cfg.N, n => csub(X[cfg.pb][f][n], out[0][f][n]), n => conj(out[0][f][n]))
      rabs(ry.re) < ONE / 10^6 and rabs(ry.im) < ONE / 10^6
    })
}
