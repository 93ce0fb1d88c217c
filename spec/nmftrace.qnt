// Recorded calls of the low-rank source model, checked one after the other.
// The random start is not known: what is checked is what follows from any start.
module nmftrace {
  import fx.* from "./fx"
  import nmf.* from "./nmf"
  import nmfdata.* from "./nmfdata"

  var run_: int
  var call: int
  var bad: List[(int, int, str)]
  var checked: int
  pure def P(r: int, k: int): List[List[int]] = RUNS[r].P[k]
  pure def R(r: int, k: int): List[List[int]] = RUNS[r].R[k]

  action init = all { run_' = 0, call' = 0, bad' = [], checked' = 0 }

  pure def maxOf(M: List[List[int]]): int = M.foldl(0, (a, row) => row.foldl(a, (b, x) => rmax(b, x)))
  // the next estimate of a rank one model is determined by the last one
  pure def successor(Rp: List[List[int]], Pn: List[List[int]]): List[List[int]] = {
    val T0 = Rp.foldl([], (l, row) => l.append([row[0]]))
    val V0 = Rp[0].foldl([], (l, x) => l.append([rdiv(x, Rp[0][0])]))
    val T1 = mu(T0, V0, Rp, Pn, 1, 0)
    val V1 = mu(V0, T1, tr(estimate(T1, V0, 1, 1)), tr(Pn), 1, 0)
    estimate(T1, V1, 1, 1)
  }
  pure def far(A: List[List[int]], B: List[List[int]]): bool =
    range(0, A.length()).foldl(false, (f, i) => range(0, A[0].length()).foldl(f, (g, j) => g or rabs(A[i][j] - B[i][j]) > rmul(maxOf(B), ONE / 10^7)))

  action step = all {
    run_ < RUNS.length(),
    val r = RUNS[run_]
    val Rn = R(run_, call)
    val b1 = if (residual(Rn, r.K) > rmul(maxOf(Rn), ONE / 10^9)) [(run_, call, "rank")] else []
    val b2 = if (call > 0 and r.same and divergence(P(run_, call), Rn) > divergence(P(run_, call), R(run_, call - 1)) + ONE / 10^8) [(run_, call, "divergence grows")] else []
    val b3 = if (call > 0 and r.K == 1 and far(Rn, successor(R(run_, call - 1), P(run_, call)))) [(run_, call, "update")] else []
    bad' = bad.concat(b1).concat(b2).concat(b3),
    run_' = if (call + 1 == RUNS[run_].R.length()) run_ + 1 else run_,
    call' = if (call + 1 == RUNS[run_].R.length()) 0 else call + 1,
    checked' = checked + 1,
  }
}
