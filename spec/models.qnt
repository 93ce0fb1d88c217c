// The classical source models as objects: laplace and gauss keep nothing between
// calls, the low-rank model (nmf) refines its factors with every call until reset.
module models {
  import fx.* from "./fx"
  import nmf.* from "./nmf"

  type Cfg = { kind: str, K: int, nb: int, nf: int, nn: int, epsDen: int, cplx: bool, seed: int }
  var cfg: Cfg
  var X: List[List[List[Cx]]]              // [signal][freq][frame], argument of the last call
  var Tm: List[List[List[int]]]            // [signal][freq][basis]
  var Vm: List[List[List[int]]]            // [signal][frame][basis]
  var out: List[List[List[int]]]           // inverse power, [signal][freq][frame]
  var calls: int

  pure def factor(seed: int, nb: int, n: int, K: int): List[List[List[int]]] = {
    val raw = ints(seed, nb * n * K, 15)
    tab3(nb, n, K, (b, i, k) => ofFrac(raw[(b * n + i) * K + k] + 17, 32))
  }
  pure def input(g: Cfg, seed: int, den: int, zero: int): List[List[List[Cx]]] = {
    val S = signal(seed, g.nb, g.nf, g.nn, if (den == 0) 9000 else 9, if (den == 0) 1 else den)
    tab3(g.nb, g.nf, g.nn, (b, f, n) => if (zero == 0 and n == 0) C0 else if (zero == 1 and f == g.nf - 1) C0 else if (zero == 2 and b == 0) C0
      else if (g.cplx) S[b][f][n] else cx(S[b][f][n].re, 0))
  }

  action init = {
    nondet kd = 0.to(4).oneOf()
    nondet K = Set(1, 2, 3, 7).oneOf()
    nondet nb = 1.to(3).oneOf()
    nondet nf = Set(1, 2, 3, 4, 9).oneOf()
    nondet nn = Set(1, 2, 3, 4, 17).oneOf()
    nondet ed = Set(2, 1000, 100000).oneOf()
    nondet cplx = Set(true, false).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    all {
      cfg' = { kind: ["laplace", "gauss", "nmf", "nmf", "nmf"][kd], K: K, nb: nb, nf: nf, nn: nn, epsDen: ed, cplx: cplx, seed: seed },
      Tm' = factor(seed, nb, nf, K), Vm' = factor(lcg(seed), nb, nn, K), X' = [], out' = [], calls' = 0,
    }
  }

  // ------------------------------------------------------------------ nmf
  pure def newT(g: Cfg, Tb: List[List[int]], Vb: List[List[int]], Xb: List[List[Cx]]): List[List[int]] = {
    val eps = ONE / g.epsDen
    mu(Tb, Vb, estimate(Tb, Vb, g.K, eps), power(Xb), g.K, eps)
  }
  // with the new left factor
  pure def newV(g: Cfg, Tb: List[List[int]], Vb: List[List[int]], Xb: List[List[Cx]]): List[List[int]] = {
    val eps = ONE / g.epsDen
    mu(Vb, Tb, tr(estimate(Tb, Vb, g.K, eps)), tr(power(Xb)), g.K, eps)
  }

  var pending: str
  action init2 = all { init, pending' = "idle" }

  action ask = all {
    pending == "idle", calls < 4,
    nondet den = Set(1, 10, 1000, 0).oneOf()
    nondet zero = 0.to(9).oneOf()
    nondet again = Set(true, false).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    X' = if (again and X != []) X else input(cfg, seed, den, zero),
    cfg' = cfg, Tm' = Tm, Vm' = Vm, out' = [], calls' = calls, pending' = if (cfg.kind == "nmf") "left" else "answer",
  }
  action left = all {
    pending == "left",
    Tm' = range(0, cfg.nb).foldl([], (l, b) => l.append(newT(cfg, Tm[b], Vm[b], X[b]))),
    Vm' = Vm, X' = X, cfg' = cfg, out' = [], calls' = calls, pending' = "right",
  }
  action right = all {
    pending == "right",
    Vm' = range(0, cfg.nb).foldl([], (l, b) => l.append(newV(cfg, Tm[b], Vm[b], X[b]))),
    Tm' = Tm, X' = X, cfg' = cfg, out' = [], calls' = calls, pending' = "answer",
  }
  action answer = all {
    pending == "answer",
    val eps = ONE / cfg.epsDen
    out' = if (cfg.kind == "nmf") range(0, cfg.nb).foldl([], (l, b) => l.append(
        estimate(Tm[b], Vm[b], cfg.K, eps).foldl([], (m, row) => m.append(row.foldl([], (r, x) => r.append(rdiv(ONE, x)))))))
      else tab3(cfg.nb, cfg.nf, cfg.nn, (b, f, n) => {
        val p = rsum(cfg.nf, g => mag2(X[b][g][n]))
        rdiv(ONE, rmax(if (cfg.kind == "laplace") 2 * rsqrt(p) else p / cfg.nf, eps))
      }),
    Tm' = Tm, Vm' = Vm, X' = X, cfg' = cfg, calls' = calls + 1, pending' = "idle",
  }
  action reset = all {
    pending == "idle", calls > 0, calls < 4,
    nondet seed = 0.to(2^40).oneOf()
    nondet nb = 1.to(3).oneOf()
    nondet nf = Set(1, 2, 3, 4, 9).oneOf()
    nondet nn = Set(1, 2, 3, 4, 17).oneOf()
    all {
      cfg' = { ...cfg, nb: nb, nf: nf, nn: nn },
      Tm' = factor(seed, nb, nf, cfg.K), Vm' = factor(lcg(seed), nb, nn, cfg.K),
    },
    X' = [], out' = [], calls' = calls, pending' = "idle",
  }
  action step = any { ask, ask, left, right, answer, reset }

  // ------------------------------------------------------------------ properties
  // weights are positive and bounded by the constant
  val bounded = out.foldl(true, (ok, s) => s.foldl(ok, (o2, row) => row.foldl(o2, (o3, w) => o3 and w > 0 and w <= ONE * cfg.epsDen + 2^40)))
  // laplace and gauss weights are the same for all frequencies
  val flat = (cfg.kind != "nmf") implies out.foldl(true, (ok, s) => s.foldl(ok, (o2, row) => o2 and row == s[0]))
  // a factor never falls below the bound
  val factorsBounded = (calls > 0) implies Tm.foldl(true, (ok, s) => s.foldl(ok, (o2, row) => row.foldl(o2, (o3, x) => o3 and (x >= ONE / cfg.epsDen or cfg.epsDen == 2))))
}
