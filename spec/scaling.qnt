// Resolution of the scale ambiguity: projection back and minimum distortion.
module scaling {
  import fx.* from "./fx"

  type Cfg = { op: str, nc: int, nf: int, nn: int, pq: int, maxIter: int, rtol: int, mdpDen: int, gmdpDen: int, special: int, seed: int }
  type Sig = List[List[List[Cx]]]          // [chan][freq][frame]
  var cfg: Cfg
  var Y: Sig
  var ref: List[List[Cx]]                  // [freq][frame]
  var c: List[List[Cx]]                    // [freq][chan], one filter coefficient per channel and frequency
  var prev: List[List[Cx]]
  var epoch: int
  var frames: List[int]                    // frames used by projection back, weakest first
  var gap: int                             // how clearly they are stronger than the others
  var delta: int                           // relative length of the last step
  var out: Sig
  var phase: str

  pure val OPS = ["pb", "pb", "l2", "l2", "phase", "md", "md", "md", "md", "md2"]
  // exponents (numerators over 4): p, q; q = 0 when there is none
  pure val PQ = [(4, 0), (2, 0), (6, 0), (4, 4), (4, 8), (3, 6), (2, 4), (6, 8), (2, 8)]

  action init = {
    nondet o = 0.to(9).oneOf()
    nondet nc = Set(1, 2, 3, 5).oneOf()
    nondet nf = Set(1, 2, 3, 6).oneOf()
    nondet nn0 = Set(1, 2, 3, 4, 5, 6, 25).oneOf()
    nondet pq = 0.to(8).oneOf()
    nondet mi = 0.to(5).oneOf()
    nondet rt = Set(0, 100, 4).oneOf()
    nondet md = Set(10, 1000, 10000000).oneOf()
    nondet gd = Set(10, 1000, 100000).oneOf()
    nondet den = Set(1, 10, 1000).oneOf()
    nondet special = 0.to(9).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    val op = OPS[o]
    val nn = if (op == "pb") rmax(nn0, nc) else nn0
    val S = signal(seed, nc, nf, nn, 9, den)
    val M = signal(lcg(seed), 1, nf, nn, 9, den)[0]
    val a = signal(lcg(lcg(seed)), nc, nf, 1, 9, 4)
    val Z = if (special == 0) S.replaceAt(nc - 1, tab2(nf, nn, (_, _) => C0))
      else if (special == 1) tab3(nc, nf, nn, (k, f, n) => if (n == nn - 1) C0 else S[k][f][n]) else S
    all {
      cfg' = { op: op, nc: nc, nf: nf, nn: nn, pq: pq, maxIter: mi, rtol: rt, mdpDen: md, gmdpDen: gd, special: special, seed: seed },
      // a singular system has no solution to project back with; the strongest frames may be anywhere
      Y' = if (op == "pb" and special > 4) tab3(nc, nf, nn, (k, f, n) => cadd(S[k][f][n], if (k == (n + seed) % nn) cx(ofFrac(40, den), 0) else C0))
        else if (op == "pb") S else Z,
      ref' = if (special > 6) tab2(nf, nn, (f, n) => csum(nc, k => cmul(a[k][f][0], S[k][f][n])))
        else if (special == 2) S[0] else if (special == 3) tab2(nf, nn, (_, _) => C0) else M,
      c' = tab2(nf, nc, (_, _) => C1), prev' = [], epoch' = 0, frames' = [], gap' = 0, delta' = 0, out' = [], phase' = "ask",
    }
  }

  action frame = all { cfg' = cfg, Y' = Y, ref' = ref }

  // |x|^(k/4)
  pure def pow4(x: int, k: int): int = {
    val r2 = rsqrt(x)
    val r4 = rsqrt(r2)
    val whole = range(0, k / 4).foldl(ONE, (m, _) => rmul(m, x))
    val h = if (k % 4 >= 2) rmul(whole, r2) else whole
    if (k % 2 == 1) rmul(h, r4) else h
  }
  // x^(1 - p/q)
  pure def powRn(x: int, p: int, q: int): int = {
    val k = (4 * (q - p)) / q
    pow4(x, k)
  }
  pure def err(S: Sig, m: List[List[Cx]], C: List[List[Cx]], k: int, f: int, n: int): Cx = csub(m[f][n], cmul(C[f][k], S[k][f][n]))

  // ------------------------------------------------------------------ closed forms
  // strongest frames: the largest sums of magnitudes over channels and frequencies
  action projectionBack = all {
    phase == "ask", cfg.op == "pb", frame,
    val mags = tab1(cfg.nn, n => rsum2(cfg.nc, cfg.nf, (k, f) => cabs(Y[k][f][n])))
    // number of frames weaker than n (earlier ones first when equal)
    val rank = tab1(cfg.nn, n => rsum(cfg.nn, m => if (mags[m] < mags[n] or (mags[m] == mags[n] and m < n)) 1 else 0))
    val sel = tab1(cfg.nc, i => range(0, cfg.nn).foldl(0, (r, n) => if (rank[n] == cfg.nn - cfg.nc + i) n else r))
    val below = range(0, cfg.nn).foldl(0, (r, n) => if (rank[n] == cfg.nn - cfg.nc - 1) mags[n] else r)
    val C = range(0, cfg.nf).foldl([], (l, f) => {
      val A = mtab(cfg.nc, cfg.nc, (i, k) => Y[k][f][sel[i]])
      val b = mtab(cfg.nc, 1, (i, _) => ref[f][sel[i]])
      l.append(msolve(mload(A, ONE / 100000), b).foldl([], (r, row) => r.append(row[0])))
    })
    all { frames' = sel, gap' = if (cfg.nn == cfg.nc) ONE else mags[sel[0]] - below, c' = C },
    prev' = [], epoch' = 0, delta' = 0, out' = [], phase' = "apply",
  }
  // least squares, the power of the estimate bounded from below
  pure def lsq(S: Sig, m: List[List[Cx]], nf: int, nc: int, nn: int, eps: int): List[List[Cx]] =
    tab2(nf, nc, (f, k) => cdivr(csum(nn, n => cmulc(m[f][n], S[k][f][n])), nn * rmax(rsum(nn, n => mag2(S[k][f][n])) / nn, eps)))
  action leastSquares = all {
    phase == "ask", cfg.op == "l2" or cfg.op == "md2", frame,
    c' = lsq(Y, ref, cfg.nf, cfg.nc, cfg.nn, ONE / cfg.mdpDen),
    prev' = [], epoch' = 0, frames' = [], gap' = 0, delta' = 0, out' = [], phase' = "apply",
  }
  action phaseOnly = all {
    phase == "ask", cfg.op == "phase", frame,
    c' = tab2(cfg.nf, cfg.nc, (f, k) => {
      val num = cdivr(csum(cfg.nn, n => cmulc(ref[f][n], Y[k][f][n])), ofInt(cfg.nn))
      cdivr(num, rmax(cabs(num), ONE / 100000))
    }),
    prev' = [], epoch' = 0, frames' = [], gap' = 0, delta' = 0, out' = [], phase' = "apply",
  }

  // ------------------------------------------------------------------ majorisation-minimisation
  action begin = all {
    phase == "ask", cfg.op == "md", frame,
    c' = c, prev' = [], epoch' = 0, frames' = [], gap' = 0, delta' = 0, out' = [], phase' = if (cfg.maxIter == 0) "apply" else "iterate",
  }
  // one reweighted least squares step
  pure def reweighted(g: Cfg, S: Sig, m: List[List[Cx]], C: List[List[Cx]]): List[List[Cx]] = {
    val p = PQ[g.pq]._1
    val q = PQ[g.pq]._2
    val eps = ONE / g.gmdpDen
    val tiny = ONE / 100000
    val E = tab3(g.nc, g.nf, g.nn, (k, f, n) => cabs(err(S, m, C, k, f, n)))
    val rn = if (q == 0 or p == q) [] else tab2(g.nc, g.nn, (k, n) =>
      powRn(rsum(g.nf, f => pow4(E[k][f][n] + tiny, q) + tiny), p, q))
    val w = tab3(g.nc, g.nf, g.nn, (k, f, n) =>
      if (q == 0 or p == q) rdiv(ofFrac(p, 4), rmax(2 * pow4(E[k][f][n], 8 - p), eps))
      else rdiv(ofFrac(p, 4), rmax(2 * rmul(rn[k][n], pow4(E[k][f][n] + tiny, 8 - q)), eps)))
    tab2(g.nf, g.nc, (f, k) => cdivr(csum(g.nn, n => cscale(cmulc(m[f][n], S[k][f][n]), w[k][f][n])),
      rmax(rsum(g.nn, n => rmul(mag2(S[k][f][n]), w[k][f][n])), eps)))
  }
  action iterate = all {
    phase == "iterate", frame,
    c' = reweighted(cfg, Y, ref, c), prev' = c, epoch' = epoch + 1, phase' = "check",
    frames' = [], gap' = 0, delta' = delta, out' = [],
  }
  pure def norm(C: List[List[Cx]]): int = rsqrt(mfrob2(C))
  action stop = all {
    phase == "check", frame,
    val d = if (epoch == 1) ONE else if (norm(prev) == 0) ONE else rdiv(norm(msub(c, prev)), norm(prev))
    all { delta' = d, phase' = if (epoch >= cfg.maxIter or (epoch > 1 and cfg.rtol > 0 and d < ONE / rmax(cfg.rtol, 1))) "apply" else "iterate" },
    c' = c, prev' = prev, epoch' = epoch, frames' = [], gap' = 0, out' = [],
  }
  action apply = all {
    phase == "apply", frame,
    out' = tab3(cfg.nc, cfg.nf, cfg.nn, (k, f, n) => cmul(c[f][k], Y[k][f][n])),
    c' = c, prev' = prev, epoch' = epoch, frames' = frames, gap' = gap, delta' = delta, phase' = "done",
  }
  action step = any { projectionBack, leastSquares, phaseOnly, begin, iterate, stop, apply }

  // ------------------------------------------------------------------ properties
  // the distortion that the reweighting minimises
  pure def distortion(g: Cfg, S: Sig, m: List[List[Cx]], C: List[List[Cx]]): int =
    rsum2(g.nc, g.nf, (k, f) => range(0, g.nn).foldl(0, (a, n) => a + pow4(cabs(err(S, m, C, k, f, n)), PQ[g.pq]._1)))
  // with unit starting coefficients the first step may be limited by the bounds, later ones never increase the distortion
  val distortionFalls = (phase == "check" and PQ[cfg.pq]._2 == 0 and cfg.gmdpDen == 100000 and cfg.special > 2 and cfg.seed % 4 == 0) implies
    distortion(cfg, Y, ref, c) <= distortion(cfg, Y, ref, prev) + ofFrac(cfg.nc * cfg.nf * cfg.nn, 100)
  // the residual of least squares is orthogonal to the estimate
  val orthogonal = (phase == "done" and (cfg.op == "l2" or cfg.op == "md2") and cfg.mdpDen == 10000000) implies
    range(0, cfg.nf).foldl(true, (ok, f) => range(0, cfg.nc).foldl(ok, (ok2, k) =>
      ok2 and (rsum(cfg.nn, n => mag2(Y[k][f][n])) / cfg.nn < ONE / 10^7 or
        cabs(csum(cfg.nn, n => cmulc(csub(ref[f][n], out[k][f][n]), Y[k][f][n]))) < ONE / 10^12)))
  // projection back reproduces the reference on the frames it uses
  val reproduces = (phase == "done" and cfg.op == "pb") implies
    range(0, cfg.nf).foldl(true, (ok, f) => frames.foldl(ok, (ok2, n) =>
      ok2 and cabs(csub(ref[f][n], csum(cfg.nc, k => out[k][f][n]))) < 2^20 + rsum(cfg.nc, k => cabs(c[f][k])) / 50000))
  val keepsMagnitude = (phase == "done" and cfg.op == "phase") implies
    range(0, cfg.nf).foldl(true, (ok, f) => range(0, cfg.nc).foldl(ok, (ok2, k) => ok2 and cabs(c[f][k]) <= ONE + 2^20))
}
