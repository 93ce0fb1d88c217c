// AuxIVA with the joint two-channel (IP2) update.
module ip2 {
  import fx.* from "./fx"
  import srcmodel.* from "./srcmodel"

  type Sig = List[List[List[Cx]]]
  type Cfg = { F: int, N: int, iters: int, pb: int, model: str, epsDen: int, seed: int, den: int, kind: int }

  var cfg: Cfg
  var X: Sig
  var Y: Sig
  var W: List[List[List[Cx]]]              // [freq][src][mic]
  var wt: List[List[List[int]]]
  var phase: str
  var it: int
  var out: Sig

  val eps = ofFrac(1, cfg.epsDen)

  // weighted covariance, averaged over frames
  pure def weighted(c: Cfg, x: Sig, w: List[int], f: int): List[List[Cx]] =
    mtab(2, 2, (a, b) => {
      val z = csum(c.N, n => cscale(cmulc(x[a][f][n], x[b][f][n]), w[n]))
      cx(z.re / c.N, z.im / c.N)
    })

  // eigenvectors of the pencil (A, B), largest eigenvalue first
  pure def gevd(A: List[List[Cx]], B: List[List[Cx]], e: int): List[List[Cx]] = {
    val b = rmul(A[0][0].re, B[1][1].re) + rmul(A[1][1].re, B[0][0].re) - 2 * cmulc(A[0][1], B[0][1]).re
    val detA = rmul(A[0][0].re, A[1][1].re) - mag2(A[0][1])
    val detB = rmul(B[0][0].re, B[1][1].re) - mag2(B[0][1])
    val root = rsqrt(rmax(rmul(b, b) - 4 * rmul(detA, detB), e))
    val ev = [rdiv((b + root) / 2, rmax(detB, e)), rdiv((b - root) / 2, rmax(detB, e))]
    tab1(2, k => {
      val u = csub(cscale(B[0][1], ev[k]), A[0][1])
      val v = cx(A[0][0].re - rmul(ev[k], B[0][0].re), 0)
      val d = rmax(rsqrt(mag2(u) + mag2(v)), e)
      [cdivr(u, d), cdivr(v, d)]
    })
  }
  pure def quad(V: List[List[Cx]], v: List[Cx]): int =
    cabs(csum2(2, 2, (a, b) => cmul(cmulc(v[b], v[a]), V[a][b])))

  // the demixing matrix of one frequency: source k minimises its own weighted power V_k
  pure def jointUpdate(V0: List[List[Cx]], V1: List[List[Cx]], e: int): List[List[Cx]] = {
    val vecs = gevd(V1, V0, e)
    val s = [quad(V0, vecs[0]), quad(V1, vecs[1])]
    mtab(2, 2, (k, m) => conj(cdivr(vecs[k][m], rmax(rsqrt(rmax(s[k], ofFrac(1, 10000000))), e))))
  }

  action init = {
    nondet F = 1.to(4).oneOf()
    nondet N0 = Set(4, 6, 9, 14, 50, 131).oneOf()
    nondet iters = Set(0, 1, 2, 3, 8, 22).oneOf()
    nondet pb = (-1).to(1).oneOf()
    nondet model = Set("laplace", "gauss", "table").oneOf()
    nondet epsDen = Set(100000, 1000, 10000000).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    nondet den = Set(4, 1, 40, 0, 1000).oneOf()
    nondet kind0 = 0.to(13).oneOf()
    // the covariances have full rank
    val kind = if (Set(2, 3, 4).contains(kind0)) 0 else kind0
    val N = if (N0 < 20 or F * iters < 4) N0 else 9
    val c = { F: F, N: N, iters: iters, pb: pb, model: model, epsDen: epsDen, seed: seed, den: den, kind: kind }
    val x = recording(seed, 2, F, N, den, kind)
    all {
      cfg' = c, X' = x, Y' = x, W' = [], wt' = [], it' = 0, out' = [],
      phase' = if (iters == 0) "finish" else "model",
    }
  }

  action callModel = all {
    phase == "model",
    wt' = applyModel(cfg.model, Y, cfg.seed + 7 * it + 1),
    phase' = "update",
    cfg' = cfg, X' = X, Y' = Y, W' = W, it' = it, out' = out,
  }

  action update = all {
    phase == "update",
    val g = tab1(2, s => rmax(rsum2(cfg.F, cfg.N, (f, n) => mag2(Y[s][f][n])) / (cfg.F * cfg.N), ofFrac(1, 100000)))
    val w = tab3(2, cfg.F, cfg.N, (s, f, n) => rmul(wt[s][f][n], g[s]))
    val w2 = tab1(cfg.F, f => jointUpdate(weighted(cfg, X, w[0][f], f), weighted(cfg, X, w[1][f], f), eps))
    all {
      W' = w2,
      Y' = tab3(2, cfg.F, cfg.N, (s, f, n) => cdot(2, m => w2[f][s][m], m => X[m][f][n])),
    },
    it' = it + 1,
    phase' = if (it + 1 < cfg.iters) "model" else "finish",
    cfg' = cfg, X' = X, wt' = wt, out' = out,
  }

  // row `ref` of the inverse of the demixing matrix
  pure def pbRow(w: List[List[Cx]], ref: int): List[Cx] = {
    val det = csub(cmul(w[0][0], w[1][1]), cmul(w[0][1], w[1][0]))
    val d = if (cabs(det) < ofFrac(1, 1000000)) cx(ofFrac(1, 1000000), 0) else det
    if (ref == 0) [cdiv(w[1][1], d), cdiv(cneg(w[0][1]), d)]
    else [cdiv(cneg(w[1][0]), d), cdiv(w[0][0], d)]
  }

  action finish = all {
    phase == "finish",
    out' = if (cfg.pb >= 0 and cfg.iters > 0) {
             val a = tab1(cfg.F, f => pbRow(W[f], cfg.pb))
             tab3(2, cfg.F, cfg.N, (s, f, n) => cmul(a[f][s], Y[s][f][n]))
           } else Y,
    phase' = "done",
    cfg' = cfg, X' = X, Y' = Y, W' = W, wt' = wt, it' = it,
  }

  action step = any { callModel, update, finish }

  // ------------------------------------------------------------------ properties of the design
  // with projection back the source images add up to the reference microphone
  val imagesAddUp = (phase == "done" and cfg.pb >= 0 and cfg.iters > 0) implies
    0.to(cfg.F - 1).forall(f => 0.to(cfg.N - 1).forall(n => {
      val s = cadd(out[0][f][n], out[1][f][n])
      val r = X[cfg.pb][f][n]
      rabs(s.re - r.re) < ONE / 10^9 and rabs(s.im - r.im) < ONE / 10^9
    })) or 0.to(cfg.F - 1).exists(f => mabsdet2(W[f]) < ofFrac(1, 10^12))
}
