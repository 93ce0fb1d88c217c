// The classical source models: given signals Y[src][freq][frame] they return
// real positive weights of the same shape (an inverse source power estimate).
module srcmodel {
  import fx.* from "./fx"

  // power of one frame summed over frequency
  pure def pow2(Y: List[List[Cx]], n: int): int = Y.foldl(0, (a, row) => a + mag2(row[n]))

  // spherical Laplace: 1 / max(2 * sqrt(sum_f |Y|^2), eps), constant over frequency
  pure def laplaceW(Y: List[List[Cx]], n: int, eps: int): int = rdiv(ONE, rmax(2 * rsqrt(pow2(Y, n)), eps))
  // time-varying Gauss: 1 / max(mean_f |Y|^2, eps), constant over frequency
  pure def gaussW(Y: List[List[Cx]], n: int, eps: int): int = rdiv(ONE, rmax(pow2(Y, n) / Y.length(), eps))

  pure def modelEps: int = ofFrac(1, 100000)

  // "table": weights that do not depend on the signal, entries k/8 with 1 <= k <= 17
  pure def applyModel(kind: str, Y: List[List[List[Cx]]], seed: int): List[List[List[int]]] = {
    val ns = Y.length()
    val nf = Y[0].length()
    val nn = Y[0][0].length()
    if (kind == "table") {
      val raw = ints(seed, ns * nf * nn, 8)
      tab3(ns, nf, nn, (s, f, n) => ofFrac(raw[(s * nf + f) * nn + n] + 9, 8))
    } else {
      val one = tab2(ns, nn, (s, n) =>
        if (kind == "laplace") laplaceW(Y[s], n, modelEps) else gaussW(Y[s], n, modelEps))
      tab3(ns, nf, nn, (s, f, n) => one[s][n])
    }
  }
}
