// The linear algebra helpers shared by the algorithms.
module linalg {
  import fx.* from "./fx"
  import eig.* from "./eig"

  type Cfg = { op: str, n: int, k: int, m: int, cplx: bool, cplx2: bool, diag: bool, load: int, epsDen: int, seed: int, special: int }
  type Mat = List[List[Cx]]
  var cfg: Cfg
  var A: Mat
  var B: Mat
  var out: Mat
  var vals: List[int]                      // eigenvalues, ascending
  var vecs: List[List[Cx]]                 // unit eigenvectors, up to a phase
  var phase: str

  pure val OPS = ["bmm", "hermite", "multiply", "magsq", "solve", "general", "invload", "inv2", "eigh", "geigh", "eigh2", "geigh2", "hankel", "dload", "mag", "divide",
    "bound1", "bound2", "floor"]

  pure def mat(raw: List[int], off: int, r: int, c: int, cplx: bool, den: int): Mat = mtab(r, c, (i, j) => {
    val p = off + 2 * (i * c + j)
    cx(ofFrac(raw[p], den), if (cplx) ofFrac(raw[p + 1], den) else 0)
  })

  action init = {
    nondet o = 0.to(18).oneOf()
    nondet n0 = Set(1, 2, 3, 4, 5, 7).oneOf()
    nondet k = Set(1, 2, 3, 4, 9).oneOf()
    nondet m = Set(1, 2, 3, 6).oneOf()
    nondet cplx = Set(true, false).oneOf()
    nondet cplx2 = Set(true, false).oneOf()
    nondet dg = 0.to(3).oneOf()
    nondet load = Set(10, 1000, 100000).oneOf()
    nondet epsDen = Set(10, 1000, 1000000).oneOf()
    nondet den = Set(1, 10, 1000).oneOf()
    nondet special = 0.to(5).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    val op = OPS[o]
    val square = Set("dload", "solve", "general", "invload", "inv2", "eigh", "geigh", "eigh2", "geigh2", "bound1", "bound2", "floor").contains(op)
    val n = if (op == "inv2" or op == "eigh2" or op == "geigh2" or op == "bound1" or op == "bound2") 2
      else if (op == "floor") rmax(3, rmin(n0, 5)) else if (op == "eigh" or op == "geigh") rmin(n0, 5) else n0
    val kk = if (square) n else if (op == "hankel") 1 + (seed % n) else k
    val two = Set("bmm", "dload", "eigh", "geigh", "eigh2", "geigh2", "solve", "general", "bound1", "bound2", "floor").contains(op)
    val c2 = if (op == "divide") false else if (two) cplx else cplx2
    val raw = ints(seed, 400, 9)
    val R0 = mat(raw, 0, n, if (op == "hankel") 5 + k else kk, cplx or op == "bmm", den)
    // a matrix that stays invertible whatever is loaded
    val R = if (op == "solve" or op == "invload") {
        // the largest entries are on the diagonal or beside it
        val shift = seed % 3
        mtab(n, n, (i, j) => if (j == (i + shift) % n) cadd(R0[i][j], cx(ofFrac(60, den), 0)) else R0[i][j])
      } else R0
    val S = mat(raw, 200, if (op == "multiply" or op == "divide") n else kk, if (op == "multiply" or op == "divide") kk else if (op == "geigh" or op == "geigh2" or op == "bound2") n else if (op == "floor") rmin(m, n) else m, c2 or op == "bmm", den)
    val diag = dg == 0 and n == 2 and (op == "geigh2" or op == "eigh2" or op == "geigh")
    val herm = mscale(madd(R, mherm(R)), ONE / 2)
    // without loading some eigenvalues may vanish
    val pos = mload(mmul(S, mherm(S)), if (op == "floor" or op == "bound2") 0 else ONE / den)
    // a small determinant, an empty row
    val R2 = if (op == "inv2" and special == 0) [R[0], tab1(2, j => cscale(R[0][j], ONE / 2))]
      // real rows, one of them times i: the determinant is imaginary
      else if (op == "inv2" and special < 3) [tab1(2, j => cx(0, R[0][j].re)), tab1(2, j => cx(R[1][j].re, 0))]
      else if ((op == "general" or op == "solve") and special == 0) R.replaceAt(0, tab1(n, _ => C0)) else R
    all {
      cfg' = { op: op, n: n, k: kk, m: m, cplx: cplx or op == "bmm" or (op == "inv2" and Set(1, 2).contains(special)), cplx2: c2 or op == "bmm", diag: diag, load: load, epsDen: epsDen, seed: seed, special: special },
      A' = if (Set("eigh", "geigh", "eigh2", "geigh2", "bound1", "bound2", "floor").contains(op)) (if (diag) mtab(2, 2, (i, j) => if (i == j) herm[i][j] else C0) else herm) else R2,
      B' = if (Set("geigh", "geigh2", "bound2", "floor").contains(op)) (if (diag) mtab(2, 2, (i, j) => if (i == j) pos[i][j] else C0) else pos) else S,
      out' = [], vals' = [], vecs' = [], phase' = "ask",
    }
  }

  pure def unit(v: List[Cx]): List[Cx] = {
    val nn = rsqrt(v.foldl(0, (s, z) => s + mag2(z)))
    v.foldl([], (l, z) => l.append(cdivr(z, rmax(nn, 1))))
  }

  // inverse square root of a positive matrix
  pure def isq(M: Mat): Mat = {
    val d = eighAsc(M)
    mtab(mrows(M), mrows(M), (i, j) => csum(mrows(M), k => cscale(cmulc(d.vecs[k][i], d.vecs[k][j]), rdiv(ONE, rsqrt(d.vals[k])))))
  }

  pure def det2(M: Mat): Cx = csub(cmul(M[0][0], M[1][1]), cmul(M[0][1], M[1][0]))

  action decompose = all {
    phase == "ask", Set("eigh", "geigh", "eigh2", "geigh2").contains(cfg.op),
    val plain = cfg.op == "eigh" or cfg.op == "eigh2"
    val h = isq(if (plain) meye(cfg.n, cfg.n) else B)
    val d = eighAsc(if (plain) A else mmul(mmul(h, A), mherm(h)))
    all {
      vals' = d.vals,
      vecs' = tab1(cfg.n, i => if (plain) d.vecs[i] else unit(mmul(h, tab1(cfg.n, r => [d.vecs[i][r]])).foldl([], (l, row) => l.append(row[0])))),
      out' = [], phase' = "done",
    },
    cfg' = cfg, A' = A, B' = B,
  }

  // the closed form for two channels with its bounds
  action bound = all {
    phase == "ask", Set("bound1", "bound2").contains(cfg.op),
    val e = ONE / cfg.epsDen
    val B1 = if (cfg.op == "bound1") meye(2, 2) else B
    val b = rmul(A[0][0].re, B1[1][1].re) + rmul(A[1][1].re, B1[0][0].re) - 2 * cmulc(A[0][1], B1[0][1]).re
    val detA = rmul(A[0][0].re, A[1][1].re) - mag2(A[0][1])
    val detB = rmul(B1[0][0].re, B1[1][1].re) - mag2(B1[0][1])
    val root = rsqrt(rmax(rmul(b, b) - 4 * rmul(detA, detB), e))
    val d = if (cfg.op == "bound1") ONE else rmax(detB, e)
    val ev = [rdiv((b - root) / 2, d), rdiv((b + root) / 2, d)]
    all {
      vals' = ev,
      vecs' = if (cfg.op == "bound1") [] else tab1(2, i => {
        val u = csub(cscale(B1[0][1], ev[i]), A[0][1])
        val w = cx(A[0][0].re - rmul(ev[i], B1[0][0].re), 0)
        val m = rmax(rsqrt(mag2(u) + mag2(w)), e)
        [cdivr(u, m), cdivr(w, m)]
      }),
      out' = [], phase' = "done",
    },
    cfg' = cfg, A' = A, B' = B,
  }

  // the generalised problem with the eigenvalues of B bounded from below
  action floored = all {
    phase == "ask", cfg.op == "floor",
    val d0 = eighAsc(B)
    val h = mtab(cfg.n, cfg.n, (i, j) => cscale(conj(d0.vecs[i][j]), rdiv(ONE, rsqrt(rmax(d0.vals[i], ofFrac(1, 100000))))))
    val d = eighAsc(mmul(mmul(h, A), mherm(h)))
    val hh = mherm(h)
    all {
      vals' = d.vals,
      vecs' = tab1(cfg.n, i => {
        val v = mmul(hh, tab1(cfg.n, q => [d.vecs[i][q]])).foldl([], (l, row) => l.append(row[0]))
        val nn = rsqrt(v.foldl(0, (t, z) => t + mag2(z)))
        v.foldl([], (l, z) => l.append(cdivr(z, rmax(nn, ofFrac(1, 100000)))))
      }),
      out' = [], phase' = "done",
    },
    cfg' = cfg, A' = A, B' = B,
  }

  action compute = all {
    phase == "ask", not(Set("eigh", "geigh", "eigh2", "geigh2", "bound1", "bound2", "floor").contains(cfg.op)),
    val load = ONE / cfg.load
    val eps = ONE / cfg.epsDen
    out' =
      if (cfg.op == "bmm") mmul(A, B)
      else if (cfg.op == "hermite") mherm(A)
      else if (cfg.op == "multiply") mtab(cfg.n, cfg.k, (i, j) => cmul(A[i][j], B[i][j]))
      else if (cfg.op == "dload") mtab(cfg.n, cfg.n, (i, j) => if (i == j) cadd(A[i][i], B[i][0]) else A[i][j])
      else if (cfg.op == "mag") mtab(cfg.n, cfg.k, (i, j) => cx(cabs(A[i][j]), 0))
      else if (cfg.op == "divide") mtab(cfg.n, cfg.k, (i, j) => cdivr(A[i][j], rmax(B[i][j].re, eps)))
      else if (cfg.op == "magsq") mtab(cfg.n, cfg.k, (i, j) => cx(mag2(A[i][j]), 0))
      else if (cfg.op == "solve") solveLoaded(A, B, load)
      else if (cfg.op == "general") solveGeneral(A, B, load, eps)
      else if (cfg.op == "invload") msolve(mload(A, loadFactor(A, load)), meye(cfg.n, cfg.n))
      else if (cfg.op == "inv2") {
        val d0 = det2(A)
        val d = if (cabs(d0) < eps) cx(eps, 0) else d0
        [[cdiv(A[1][1], d), cdiv(cneg(A[0][1]), d)], [cdiv(cneg(A[1][0]), d), cdiv(A[0][0], d)]]
      }
      // every row becomes a Hankel matrix; the rows are stacked
      else range(0, cfg.n).foldl([], (acc, r) => acc.concat(
        mtab(cfg.k, A[0].length() - cfg.k + 1, (i, j) => A[r][i + j]))),
    vals' = [], vecs' = [], phase' = "done",
    cfg' = cfg, A' = A, B' = B,
  }
  action step = any { decompose, bound, floored, compute }

  // ------------------------------------------------------------------ properties
  pure def small(M: Mat): bool = mmaxabs2(M) < ONE / 10^22
  // A v = lambda B v
  val eigenpairs = (phase == "done" and vals != [] and Set("eigh", "geigh", "eigh2", "geigh2").contains(cfg.op)) implies
    range(0, cfg.n).foldl(true, (ok, i) => {
      val v = mtr([vecs[i]])
      val right = if (cfg.op == "eigh" or cfg.op == "eigh2") v else mmul(B, v)
      ok and small(msub(mmul(A, v), mscale(right, vals[i])))
    })
  val inverse = (phase == "done" and cfg.op == "inv2" and cabs(det2(A)) >= ONE / cfg.epsDen) implies small(msub(mmul(A, out), meye(2, 2)))
  val trace = (phase == "done" and (cfg.op == "eigh" or cfg.op == "eigh2")) implies
    rabs(rsum(cfg.n, i => A[i][i].re) - rsum(cfg.n, i => vals[i])) < ONE / 10^12
}
