// Mask based beamformers: MVDR (relative transfer function or covariance form,
// two or three masks), MWF (time invariant or time varying) and GEV.
module beam {
  import fx.* from "./fx"
  import eig.* from "./eig"

  type Sig = List[List[List[Cx]]]
  type Mat = List[List[Cx]]
  type Cfg = {
    kind: str,                             // rtf, scm, mwf, mwft, gev
    masks: int,                            // masks per source
    C: int, S: int, F: int, N: int, ref: int,
    pow: int,                              // power iterations, -1: eigenvalue decomposition
    epsDen: int, seed: int, den: int, special: int
  }

  var cfg: Cfg
  var X: Sig
  var M: List[List[List[List[int]]]]       // masks [src][mask][freq][frame]
  var cov: List[List[List[Mat]]]           // masked covariances [src][mask][freq]
  var rtf: List[List[List[Cx]]]            // [src][freq][mic]
  var bf: List[List[List[List[Cx]]]]       // weights [src][freq][frame or 1][mic]
  var every: List[List[Mat]]               // time invariant MWF: the weights for every reference, one per column
  var phase: str
  var out: Sig

  val eps = ofFrac(1, cfg.epsDen)

  pure def masked(x: Sig, m: List[List[int]], c: Cfg, f: int): Mat =
    mtab(c.C, c.C, (a, b) => csum(c.N, n => cscale(cmulc(x[a][f][n], x[b][f][n]), m[f][n])))

  // principal generalised eigenvector of (A, B), any scale
  pure def principal(A: Mat, B: Mat): List[Cx] = {
    val n = A.length()
    val d = eighAsc(B)
    val r = tab1(n, i => rsqrt(d.vals[i]))
    // inverse square root of B
    val L = mtab(n, n, (i, j) => csum(n, k => cdivr(cmulc(d.vecs[k][i], d.vecs[k][j]), r[k])))
    val e = eighAsc(mmul(mmul(L, A), L))
    val u = e.vecs[n - 1]
    tab1(n, i => cdot(n, k => L[i][k], k => u[k]))
  }
  pure def matvec(A: Mat, v: List[Cx]): List[Cx] =
    tab1(v.length(), i => cdot(v.length(), k => A[i][k], k => v[k]))
  // v^H u
  pure def inner(v: List[Cx], u: List[Cx]): Cx = cdot(v.length(), k => conj(v[k]), k => u[k])
  pure def col(A: Mat, j: int): List[Cx] = tab1(A.length(), i => A[i][j])
  pure def asCol(v: List[Cx]): Mat = v.foldl([], (acc, z) => acc.append([z]))

  // power method started from the first unit vector
  pure def powered(A: Mat, B: Mat, steps: int): List[Cx] = {
    val P = solveLoaded(B, A, ofFrac(1, 100000))
    range(1, steps).foldl(col(P, 0), (v, _) => {
      val y = matvec(P, v)
      val q = rsqrt(y.foldl(0, (a, z) => a + mag2(z)))
      y.foldl([], (acc, z) => acc.append(cdivr(z, q)))
    })
  }

  action init = {
    nondet kind = Set("rtf", "rtf", "rtf3", "scm", "mwf", "mwft", "gev").oneOf()
    nondet C = Set(1, 2, 3, 4, 6).oneOf()
    nondet S = Set(1, 2, 3, 5).oneOf()
    nondet F = 1.to(3).oneOf()
    nondet N = Set(C + 3, 2 * C + 3, 50, if (C < 3) 131 else 7 + C).oneOf()
    nondet ref = 0.to(C - 1).oneOf()
    nondet pow = Set(-1, -1, 1, 2, 5).oneOf()
    nondet epsDen = Set(100000, 1000, 20).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    nondet den = Set(4, 1, 16, 0, 200).oneOf()
    nondet special0 = 0.to(13).oneOf()
    // only the Wiener filter is defined for covariances without full rank
    val special = if ((Set(2, 3, 4).contains(special0) or (special0 == 7 and N < 2 * C + 4)) and kind != "mwf") 0 else special0
    val c = { kind: if (kind == "rtf3") "rtf" else kind,
              masks: if (kind == "rtf3") 3 else if (kind == "mwft") 4 else 2,
              C: C, S: S, F: F, N: N, ref: ref, pow: pow, epsDen: epsDen, seed: seed, den: den, special: special }
    val raw = ints(seed + 3, S * c.masks * F * N, 8)
    all {
      cfg' = c,
      X' = recording(seed, C, F, N, den, special),
      M' = tab4(S, c.masks, F, N, (s, m, f, n) => ofFrac(raw[((s * c.masks + m) * F + f) * N + n] + 9, 17)),
      cov' = [], rtf' = [], bf' = [], every' = [], out' = [], phase' = "covariance",
    }
  }

  action covariances = all {
    phase == "covariance",
    cov' = tab3(cfg.S, if (cfg.masks == 3) 3 else 2, cfg.F, (s, m, f) => masked(X, M[s][m], cfg, f)),
    phase' = if (cfg.kind == "rtf") "transfer" else "weights",
    cfg' = cfg, X' = X, M' = M, rtf' = rtf, bf' = bf, every' = every, out' = out,
  }

  // relative transfer function, 1 at the reference; with three masks the second noise mask is used for it
  action transferFunction = all {
    phase == "transfer",
    val nz = if (cfg.masks == 3) 2 else 1
    rtf' = tab2(cfg.S, cfg.F, (s, f) => {
      val A = cov[s][0][f]
      val B = cov[s][nz][f]
      val v = if (cfg.pow < 0) principal(A, B) else powered(A, B, cfg.pow)
      val h = matvec(B, v)
      h.foldl([], (acc, z) => acc.append(cdiv(z, h[cfg.ref])))
    }),
    phase' = "weights",
    cfg' = cfg, X' = X, M' = M, cov' = cov, bf' = bf, every' = every, out' = out,
  }

  action weights = all {
    phase == "weights",
    bf' =
      if (cfg.kind == "rtf")
        tab3(cfg.S, cfg.F, 1, (s, f, _) => {
          val a = col(solveLoaded(cov[s][1][f], asCol(rtf[s][f]), eps), 0)
          val d = rmax(inner(rtf[s][f], a).re, eps)
          a.foldl([], (acc, z) => acc.append(cdivr(z, d)))
        })
      else if (cfg.kind == "scm")
        tab3(cfg.S, cfg.F, 1, (s, f, _) => {
          val P = msolve(cov[s][1][f], cov[s][0][f])
          val t = mtrace(P)
          col(P, cfg.ref).foldl([], (acc, z) => acc.append(cdiv(z, t)))
        })
      else if (cfg.kind == "gev")
        tab3(cfg.S, cfg.F, 1, (s, f, _) => {
          val v = principal(cov[s][0][f], cov[s][1][f])
          val Bv = matvec(cov[s][1][f], v)
          // blind analytic normalisation: the image of the extracted component at the reference
          val g = cdivr(Bv[cfg.ref], inner(v, Bv).re)
          v.foldl([], (acc, z) => acc.append(cmul(z, conj(g))))
        })
      else
        tab3(cfg.S, cfg.F, if (cfg.kind == "mwft") cfg.N else 1, (s, f, n) => {
          val A = if (cfg.kind == "mwft") mscale(cov[s][0][f], M[s][2][f][n]) else cov[s][0][f]
          val B = if (cfg.kind == "mwft") mscale(cov[s][1][f], M[s][3][f][n]) else cov[s][1][f]
          col(solveLoaded(madd(A, B), asCol(col(A, cfg.ref)), eps), 0)
        }),
    every' = if (cfg.kind == "mwf")
        tab2(cfg.S, cfg.F, (s, f) => solveLoaded(madd(cov[s][0][f], cov[s][1][f]), cov[s][0][f], eps))
      else [],
    phase' = "apply",
    cfg' = cfg, X' = X, M' = M, cov' = cov, rtf' = rtf, out' = out,
  }

  action apply = all {
    phase == "apply",
    out' = tab3(cfg.S, cfg.F, cfg.N, (s, f, n) => {
      val w = bf[s][f][if (cfg.kind == "mwft") n else 0]
      csum(cfg.C, c => cmulc(X[c][f][n], w[c]))
    }),
    phase' = "done",
    cfg' = cfg, X' = X, M' = M, cov' = cov, rtf' = rtf, bf' = bf, every' = every,
  }

  action step = any { covariances, transferFunction, weights, apply }

  // ------------------------------------------------------------------ properties of the design
  pure def close(a: Cx, b: Cx): bool = mag2(csub(a, b)) < ONE / 10^16
  // the MVDR beamformer passes its steering vector undistorted (unless the denominator was floored)
  val distortionless = (phase == "apply" and cfg.kind == "rtf") implies
    0.to(cfg.S - 1).forall(s => 0.to(cfg.F - 1).forall(f => {
      val g = inner(bf[s][f][0], rtf[s][f])
      close(g, C1) or inner(bf[s][f][0], rtf[s][f]).re < ONE
    }))
  // the weights for one reference are the column of the weights for every reference
  val oneOfEvery = (phase == "apply" and cfg.kind == "mwf") implies
    0.to(cfg.S - 1).forall(s => 0.to(cfg.F - 1).forall(f => 0.to(cfg.C - 1).forall(c => close(bf[s][f][0][c], every[s][f][c][cfg.ref]))))
  // with one microphone every distortionless beamformer is the identity
  val singleMicrophone = (phase == "done" and cfg.C == 1 and (cfg.kind == "scm" or cfg.kind == "gev")) implies
    0.to(cfg.S - 1).forall(s => 0.to(cfg.F - 1).forall(f => 0.to(cfg.N - 1).forall(n => close(out[s][f][n], X[0][f][n]))))
  // the GEV weights maximise the ratio of target to noise power among the unit vectors and sums of two of them
  pure def quad(A: Mat, v: List[Cx]): int = inner(v, matvec(A, v)).re
  val gevMaximal = (phase == "apply" and cfg.kind == "gev") implies
    0.to(cfg.S - 1).forall(s => 0.to(cfg.F - 1).forall(f => {
      val w = bf[s][f][0]
      val A = cov[s][0][f]
      val B = cov[s][1][f]
      val best = rdiv(quad(A, w), quad(B, w))
      0.to(cfg.C - 1).forall(i => best + ONE / 10^9 >= rdiv(A[i][i].re, B[i][i].re))
    }))
}
