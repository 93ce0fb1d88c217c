// Exact-ish arithmetic for the executable specifications of torchiva.
//
// Reals are integers scaled by ONE = 2^96 (Quint integers are unbounded), so a
// specification step is accurate to about 1e-28, far below the rounding of the
// double precision implementation it is compared with.
module fx {
  pure val ONE: int = 2^96

  type Cx = { re: int, im: int }

  // ---------------------------------------------------------------- reals
  pure def ofInt(n: int): int = n * ONE
  // the real number num/den
  pure def ofFrac(num: int, den: int): int = (num * ONE) / den
  pure def rmul(a: int, b: int): int = (a * b) / ONE
  pure def rdiv(a: int, b: int): int = (a * ONE) / b
  pure def rmax(a: int, b: int): int = if (a < b) b else a
  pure def rmin(a: int, b: int): int = if (a < b) a else b
  pure def rabs(a: int): int = if (a < 0) -a else a

  // integer square root: start at a power of two above the root, then Newton
  pure def isqrt(n: int): int =
    if (n <= 0) 0
    else {
      val start = range(0, 12).foldl(1, (x, _) => if (x * x > n) x else x * 2^32)
      val s2 = range(0, 16).foldl(start, (x, _) => if (x > 4 and (x / 4) * (x / 4) > n) x / 4 else x)
      range(0, 20).foldl(s2, (x, _) => {
        val y = (x + n / x) / 2
        if (y < x) y else x
      })
    }
  pure def rsqrt(a: int): int = isqrt(a * ONE)

  // ---------------------------------------------------------------- complex
  pure val C0: Cx = { re: 0, im: 0 }
  pure val C1: Cx = { re: ONE, im: 0 }
  pure def cx(re: int, im: int): Cx = { re: re, im: im }
  pure def cadd(a: Cx, b: Cx): Cx = { re: a.re + b.re, im: a.im + b.im }
  pure def csub(a: Cx, b: Cx): Cx = { re: a.re - b.re, im: a.im - b.im }
  pure def cneg(a: Cx): Cx = { re: -a.re, im: -a.im }
  pure def conj(a: Cx): Cx = { re: a.re, im: -a.im }
  pure def cmul(a: Cx, b: Cx): Cx =
    { re: (a.re * b.re - a.im * b.im) / ONE, im: (a.re * b.im + a.im * b.re) / ONE }
  // a * conj(b)
  pure def cmulc(a: Cx, b: Cx): Cx =
    { re: (a.re * b.re + a.im * b.im) / ONE, im: (a.im * b.re - a.re * b.im) / ONE }
  pure def cscale(a: Cx, r: int): Cx = { re: (a.re * r) / ONE, im: (a.im * r) / ONE }
  pure def cdivr(a: Cx, r: int): Cx = { re: (a.re * ONE) / r, im: (a.im * ONE) / r }
  pure def mag2(a: Cx): int = (a.re * a.re + a.im * a.im) / ONE
  pure def cabs(a: Cx): int = isqrt(a.re * a.re + a.im * a.im)
  pure def cdiv(a: Cx, b: Cx): Cx = {
    val d = b.re * b.re + b.im * b.im
    { re: ((a.re * b.re + a.im * b.im) * ONE) / d, im: ((a.im * b.re - a.re * b.im) * ONE) / d }
  }

  // ---------------------------------------------------------------- sums and tables
  // Quint's simulator evaluates operator parameters in static registers, so a
  // higher-order operator must not be re-entered from the function it is given.
  // The operators are therefore layered, and a function passed to one layer
  // only uses the layers below it:
  //   layer 1  rsum, rsum2, csum, csum2, cdot          (sums)
  //   layer 2  mtab and the matrix operations
  //   layer 3  tab1, tab2, tab3, tab4                  (tables of the specifications)
  pure def rsum(n: int, f: (int) => int): int = range(0, n).foldl(0, (acc, i) => acc + f(i))
  pure def rsum2(n: int, m: int, f: (int, int) => int): int =
    range(0, n).foldl(0, (acc, i) => range(0, m).foldl(acc, (a2, j) => a2 + f(i, j)))
  pure def csum(n: int, f: (int) => Cx): Cx = range(0, n).foldl(C0, (acc, i) => cadd(acc, f(i)))
  pure def csum2(n: int, m: int, f: (int, int) => Cx): Cx =
    range(0, n).foldl(C0, (acc, i) => range(0, m).foldl(acc, (a2, j) => cadd(a2, f(i, j))))
  // sum_i f(i) * g(i), rounded once
  pure def cdot(n: int, f: (int) => Cx, g: (int) => Cx): Cx = {
    val s = range(0, n).foldl(C0, (acc, i) => {
      val a = f(i)
      val b = g(i)
      { re: acc.re + a.re * b.re - a.im * b.im, im: acc.im + a.re * b.im + a.im * b.re }
    })
    { re: s.re / ONE, im: s.im / ONE }
  }

  // ---------------------------------------------------------------- matrices (row major lists)
  pure def mrows(A: List[List[Cx]]): int = A.length()
  pure def mcols(A: List[List[Cx]]): int = A[0].length()
  pure def mtab(r: int, c: int, f: (int, int) => Cx): List[List[Cx]] =
    range(0, r).foldl([], (acc, i) => acc.append(range(0, c).foldl([], (row, j) => row.append(f(i, j)))))
  pure def meye(r: int, c: int): List[List[Cx]] = mtab(r, c, (i, j) => if (i == j) C1 else C0)
  pure def mtr(A: List[List[Cx]]): List[List[Cx]] = mtab(mcols(A), mrows(A), (i, j) => A[j][i])
  pure def mherm(A: List[List[Cx]]): List[List[Cx]] = mtab(mcols(A), mrows(A), (i, j) => conj(A[j][i]))
  pure def madd(A: List[List[Cx]], B: List[List[Cx]]): List[List[Cx]] =
    mtab(mrows(A), mcols(A), (i, j) => cadd(A[i][j], B[i][j]))
  pure def msub(A: List[List[Cx]], B: List[List[Cx]]): List[List[Cx]] =
    mtab(mrows(A), mcols(A), (i, j) => csub(A[i][j], B[i][j]))
  pure def mscale(A: List[List[Cx]], r: int): List[List[Cx]] =
    mtab(mrows(A), mcols(A), (i, j) => cscale(A[i][j], r))
  pure def mmul(A: List[List[Cx]], B: List[List[Cx]]): List[List[Cx]] =
    mtab(mrows(A), mcols(B), (i, j) => cdot(mcols(A), k => A[i][k], k => B[k][j]))
  pure def mload(A: List[List[Cx]], r: int): List[List[Cx]] =
    mtab(mrows(A), mcols(A), (i, j) => if (i == j) cadd(A[i][j], cx(r, 0)) else A[i][j])
  pure def mtrace(A: List[List[Cx]]): Cx = csum(mrows(A), i => A[i][i])
  pure def mfrob2(A: List[List[Cx]]): int = rsum2(mrows(A), mcols(A), (i, j) => mag2(A[i][j]))
  pure def mmaxabs2(A: List[List[Cx]]): int =
    range(0, mrows(A)).foldl(0, (a, i) => range(0, mcols(A)).foldl(a, (b, j) => rmax(b, mag2(A[i][j]))))

  // one step of elimination with partial pivoting on column k of [M]
  pure def pivotRow(M: List[List[Cx]], k: int): int =
    range(k, M.length()).foldl(k, (best, i) => if (mag2(M[i][k]) > mag2(M[best][k])) i else best)
  pure def swapRows(M: List[List[Cx]], i: int, j: int): List[List[Cx]] = M.replaceAt(i, M[j]).replaceAt(j, M[i])

  // solve A x = B by Gauss-Jordan elimination with partial pivoting
  pure def msolve(A: List[List[Cx]], B: List[List[Cx]]): List[List[Cx]] = {
    val n = mrows(A)
    val m = mcols(B)
    val aug = mtab(n, n + m, (i, j) => if (j < n) A[i][j] else B[i][j - n])
    val fin = range(0, n).foldl(aug, (M, k) => {
      val Mp = swapRows(M, k, pivotRow(M, k))
      val piv = Mp[k][k]
      mtab(n, n + m, (i, j) => {
        val pr = cdiv(Mp[k][j], piv)
        if (i == k) pr else csub(Mp[i][j], cmul(Mp[i][k], pr))
      })
    })
    mtab(n, m, (i, j) => fin[i][n + j])
  }
  // the pivots (squared moduli) met by elimination: product = |det|^2, 0 when singular
  pure def pivots2(A: List[List[Cx]]): List[int] = {
    val n = mrows(A)
    range(0, n).foldl({ M: A, p: [] }, (s, k) => {
      val Mp = swapRows(s.M, k, pivotRow(s.M, k))
      val piv = Mp[k][k]
      if (mag2(piv) == 0) { M: Mp, p: s.p.append(0) }
      else {
        M: mtab(n, n, (i, j) => if (i <= k) Mp[i][j] else csub(Mp[i][j], cmul(cdiv(Mp[i][k], piv), Mp[k][j]))),
        p: s.p.append(mag2(piv))
      }
    }).p
  }
  pure def minPivot2(A: List[List[Cx]]): int = {
    val p = pivots2(A)
    p.foldl(p[0], (m, x) => rmin(m, x))
  }
  pure def mabsdet2(A: List[List[Cx]]): int = pivots2(A).foldl(ONE, (d, x) => rmul(d, x))

  // the row-normalised, loaded normal equations used for general square systems
  pure def solveGeneral(A: List[List[Cx]], B: List[List[Cx]], load: int, eps: int): List[List[Cx]] = {
    val w = A.foldl([], (acc, row) =>
      acc.append(rdiv(ONE, rmax(rsqrt(row.foldl(0, (q, z) => q + mag2(z))), eps))))
    val A2 = mtab(mrows(A), mcols(A), (i, j) => cscale(A[i][j], w[i]))
    val B2 = mtab(mrows(A), mcols(B), (i, j) => cscale(B[i][j], w[i]))
    val Ah = mherm(A2)
    msolve(mload(mmul(Ah, A2), load), mmul(Ah, B2))
  }
  // diagonal loading relative to the largest entry, at least `load`
  pure def loadFactor(A: List[List[Cx]], load: int): int =
    rmax(rmul(load, rsqrt(mmaxabs2(A))), load)
  pure def solveLoaded(A: List[List[Cx]], B: List[List[Cx]], load: int): List[List[Cx]] =
    msolve(mload(A, loadFactor(A, load)), B)

  // ---------------------------------------------------------------- tables
  pure def tab1(n: int, f: (int) => a): List[a] = range(0, n).foldl([], (acc, i) => acc.append(f(i)))
  pure def tab2(n: int, m: int, f: (int, int) => a): List[List[a]] =
    range(0, n).foldl([], (acc, i) => acc.append(range(0, m).foldl([], (r1, j) => r1.append(f(i, j)))))
  pure def tab3(n: int, m: int, q: int, f: (int, int, int) => a): List[List[List[a]]] =
    range(0, n).foldl([], (acc, i) => acc.append(
      range(0, m).foldl([], (r1, j) => r1.append(
        range(0, q).foldl([], (r2, l) => r2.append(f(i, j, l)))))))
  pure def tab4(n: int, m: int, q: int, w: int, f: (int, int, int, int) => a): List[List[List[List[a]]]] =
    range(0, n).foldl([], (acc, i) => acc.append(
      range(0, m).foldl([], (r1, j) => r1.append(
        range(0, q).foldl([], (r2, l) => r2.append(
          range(0, w).foldl([], (r3, o) => r3.append(f(i, j, l, o)))))))))

  // ---------------------------------------------------------------- data
  // A small linear congruential generator: the specification chooses a seed
  // nondeterministically and expands it into the samples of a signal.
  pure def lcg(s: int): int = (s * 6364136223846793005 + 1442695040888963407) % 2^64
  // n pseudo random integers in -r .. r
  pure def ints(seed: int, n: int, r: int): List[int] =
    range(0, n).foldl({ s: lcg(lcg(seed)), l: [] }, (a, _) => {
      val s2 = lcg(a.s)
      { s: s2, l: a.l.append((s2 / 2^33) % (2 * r + 1) - r) }
    }).l
  // complex signal indexed [chan][freq][frame], entries (a + ib)/den with |a|,|b| <= r
  pure def signal(seed: int, nc: int, nf: int, nn: int, r: int, den: int): List[List[List[Cx]]] = {
    val raw = ints(seed, 2 * nc * nf * nn, r)
    tab3(nc, nf, nn, (c, f, n) => {
      val i = 2 * ((c * nf + f) * nn + n)
      cx(ofFrac(raw[i], den), ofFrac(raw[i + 1], den))
    })
  }
  // A recording: usual ones, and unusual kinds.  den 0 is a loud recording.
  // kind 1: real; 2: silent last channel; 3: the last channel is a copy of the first; 4: silent last frequency;
  // 5: the first channel is imaginary; 6: one loud frame; 7: the first half is faint; others: nothing special
  pure def recording(seed: int, nc: int, nf: int, nn: int, den: int, kind: int): List[List[List[Cx]]] = {
    val raw = signal(seed, nc, nf, nn, if (den == 0) 9000 else 9, if (den == 0) 1 else den)
    tab3(nc, nf, nn, (c, f, n) => {
      val v = raw[c][f][n]
      if (kind == 1) cx(v.re, 0)
      else if (kind == 2 and nc > 1 and c == nc - 1) C0
      else if (kind == 3 and c == nc - 1) raw[0][f][n]
      else if (kind == 4 and nf > 1 and f == nf - 1) C0
      else if (kind == 5 and c == 0) cx(0, v.im)
      else if (kind == 6 and n == nn / 2) cscale(v, if (den == 0) 5 * ONE else 300 * ONE)
      else if (kind == 7 and n < nn / 2) cdivr(v, 1000 * ONE)
      else v
    })
  }
}
