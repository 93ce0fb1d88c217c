// Eigenvalue decomposition of small Hermitian matrices by cyclic Jacobi rotations.
module eig {
  import fx.* from "./fx"

  type Evd = { A: List[List[Cx]], U: List[List[Cx]] }

  // one rotation of columns and rows p < q that zeroes A[p][q]
  pure def rotate(s: Evd, p: int, q: int): Evd = {
    val n = s.A.length()
    val apq = s.A[p][q]
    val r = cabs(apq)
    if (r < 2^12) s
    else {
      val tau = rdiv(s.A[q][q].re - s.A[p][p].re, 2 * r)
      val tt = rdiv(ONE, rabs(tau) + rsqrt(ONE + rmul(tau, tau)))
      val t = if (tau < 0) -tt else tt
      val c = rdiv(ONE, rsqrt(ONE + rmul(t, t)))
      val sn = rmul(t, c)
      // e^{-i phi}, with enough digits to stay unitary when r is tiny
      val big = cx(apq.re * 2^80, -apq.im * 2^80)
      val ph = cdivr(big, cabs(big))
      val sp = cscale(ph, sn)
      val cp = cscale(ph, c)
      // M U with U = [[c, s], [-s e^{-i phi}, c e^{-i phi}]] in columns p, q
      val AU = mtab(n, n, (i, j) =>
        if (j == p) csub(cscale(s.A[i][p], c), cmul(s.A[i][q], sp))
        else if (j == q) cadd(cscale(s.A[i][p], sn), cmul(s.A[i][q], cp))
        else s.A[i][j])
      val UU = mtab(n, n, (i, j) =>
        if (j == p) csub(cscale(s.U[i][p], c), cmul(s.U[i][q], sp))
        else if (j == q) cadd(cscale(s.U[i][p], sn), cmul(s.U[i][q], cp))
        else s.U[i][j])
      // U^H (A U)
      val UAU = mtab(n, n, (i, j) =>
        if (i == p) csub(cscale(AU[p][j], c), cmul(conj(sp), AU[q][j]))
        else if (i == q) cadd(cscale(AU[p][j], sn), cmul(conj(cp), AU[q][j]))
        else AU[i][j])
      { A: UAU, U: UU }
    }
  }

  pure def jacobi(A: List[List[Cx]]): Evd = {
    val n = A.length()
    range(0, 9).foldl({ A: A, U: meye(n, n) }, (s0, _) =>
      range(0, n).foldl(s0, (s1, p) =>
        range(p + 1, n).foldl(s1, (s2, q) => rotate(s2, p, q))))
  }

  // order of the eigenvalues, ascending
  pure def ascending(e: Evd): List[int] =
    range(0, e.A.length()).foldl([], (acc, i) => {
      val k = acc.foldl(0, (m, j) => if (e.A[j][j].re <= e.A[i][i].re) m + 1 else m)
      acc.slice(0, k).append(i).concat(acc.slice(k, acc.length()))
    })

  // eigenvalues (ascending) and eigenvectors (list of vectors, same order)
  pure def eighAsc(A: List[List[Cx]]): { vals: List[int], vecs: List[List[Cx]] } = {
    val e = jacobi(A)
    val o = ascending(e)
    { vals: tab1(o.length(), i => e.A[o[i]][o[i]].re),
      vecs: tab2(o.length(), o.length(), (i, j) => e.U[j][o[i]]) }
  }

  // the decomposition reproduces the matrix
  run evdTest = {
    val raw = ints(77, 32, 9)
    val B = mtab(4, 4, (i, j) => cx(ofInt(raw[2 * (4 * i + j)]), ofInt(raw[2 * (4 * i + j) + 1])))
    val A = mmul(B, mherm(B))
    val d = eighAsc(A)
    val back = mtab(4, 4, (i, j) => csum(4, k => cscale(cmulc(d.vecs[k][i], d.vecs[k][j]), d.vals[k])))
    all {
      assert(mmaxabs2(msub(back, A)) < ONE / 10^20),
      assert(d.vals[0] <= d.vals[1] and d.vals[1] <= d.vals[2] and d.vals[2] <= d.vals[3]),
    }
  }
}
