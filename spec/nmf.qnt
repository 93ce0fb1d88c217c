// Low-rank factorisation of a power spectrogram by multiplicative updates for the
// Itakura-Saito divergence.
module nmf {
  import fx.* from "./fx"
  import elem.* from "./elem"

  pure def estimate(Tb: List[List[int]], Vb: List[List[int]], K: int, eps: int): List[List[int]] =
    Tb.foldl([], (l, tr) => l.append(Vb.foldl([], (r, vr) => r.append(rmax(range(0, K).foldl(0, (a, k) => a + rmul(tr[k], vr[k])), eps)))))
  pure def power(Xb: List[List[Cx]]): List[List[int]] = Xb.foldl([], (l, row) => l.append(row.foldl([], (r, z) => r.append(mag2(z)))))
  pure def tr(M: List[List[int]]): List[List[int]] = range(0, M[0].length()).foldl([], (l, j) => l.append(M.foldl([], (r, row) => r.append(row[j]))))
  // multiplicative update of the left factor of R = A B'
  pure def mu(A: List[List[int]], B: List[List[int]], R: List[List[int]], P: List[List[int]], K: int, eps: int): List[List[int]] =
    range(0, A.length()).foldl([], (l, i) => l.append(range(0, K).foldl([], (r, k) => {
      val num = range(0, B.length()).foldl(0, (s, j) => s + rmul(rdiv(rdiv(P[i][j], R[i][j]), R[i][j]), B[j][k]))
      val den = range(0, B.length()).foldl(0, (s, j) => s + rdiv(B[j][k], R[i][j]))
      r.append(rmax(rmul(A[i][k], rsqrt(rdiv(num, den))), eps))
    })))

  // sum of P/R - log(P/R) - 1
  pure def divergence(P: List[List[int]], R: List[List[int]]): int =
    range(0, P.length()).foldl(0, (a, i) => range(0, P[0].length()).foldl(a, (b, j) => {
      val q = rdiv(P[i][j], R[i][j])
      b + q - rlog(q) - ONE
    }))
  // what is left of R after removing K rank-one parts (largest entry as pivot each time)
  pure def residual(R: List[List[int]], K: int): int = {
    val fin = range(0, K).foldl(R, (M, _) => {
      val p = range(0, M.length()).foldl((0, 0), (best, i) => range(0, M[0].length()).foldl(best, (b2, j) =>
        if (rabs(M[i][j]) > rabs(M[b2._1][b2._2])) (i, j) else b2))
      val piv = M[p._1][p._2]
      if (piv == 0) M
      else range(0, M.length()).foldl([], (l, i) => l.append(range(0, M[0].length()).foldl([], (r, j) =>
        r.append(M[i][j] - rmul(M[i][p._2], rdiv(M[p._1][j], piv))))))
    })
    fin.foldl(0, (a, row) => row.foldl(a, (b, x) => rmax(b, rabs(x))))
  }
}
