// The neural source models and mask estimators in evaluation mode, layer by layer.
// Parameters are flat lists in the order of the model's own parameter file.
module neural {
  import fx.* from "./fx"
  import elem.* from "./elem"

  type Cfg = { kind: str, F: int, B: int, T: int, pool: int, K: int, nsub: int, mag: bool, logs: bool, H: int, nl: int, nsrc: int, nmask: int, epsDen: int, cplx: bool, seed: int }
  type Frames = List[List[int]]            // [feature][frame]
  var cfg: Cfg
  var X: List[List[Cx]]                    // [freq][frame]
  var par: List[List[int]]
  var act: Frames
  var layer: int
  var pos: int                             // next unused parameter
  var out: Frames
  var phase: str

  // ------------------------------------------------------------------ parameters
  // kinds of parameter tensors: 0 any, 1 positive (variances, filter banks)
  type Shape = { n: int, kind: int }
  pure def any_(n: int): Shape = { n: n, kind: 0 }
  pure def pos_(n: int): Shape = { n: n, kind: 1 }
  pure def norm4(n: int): List[Shape] = [any_(n), any_(n), any_(n), pos_(n)]
  pure def gluShapes(ni: int, no: int, nsub: int, pool: int): List[Shape] =
    range(0, nsub).foldl([], (l, s) => {
      val w = pool * (if (s == nsub - 1) no else ni)
      l.concat([any_(w * ni * 3), any_(w)]).concat(norm4(w)).concat([any_(w * ni * 3), any_(w)]).concat(norm4(w))
    })
  pure def lstmShapes(ni: int, H: int, nl: int): List[Shape] =
    range(0, nl).foldl([], (l, k) => {
      val i = if (k == 0) ni else 2 * H
      val one = [any_(4 * H * i), any_(4 * H * H), any_(4 * H), any_(4 * H)]
      l.concat(one).concat(one)
    })
  pure def shapes(g: Cfg): List[Shape] =
    if (g.kind == "glu") gluShapes(if (g.mag) g.F else 2 * g.F, g.B, 1, g.pool)
      .concat(gluShapes(g.B, g.B, g.nsub, g.pool)).concat(gluShapes(g.B, g.B, g.nsub, g.pool)).concat([any_(g.B * g.F * g.K), any_(g.F)])
    else if (g.kind == "blstm") [pos_(g.F * g.B)].concat(lstmShapes(if (g.mag) g.B else 2 * g.B, g.H, 3)).concat([any_(2 * g.H * g.F), any_(g.F)])
    else if (g.kind == "masks") lstmShapes(g.F, g.H, g.nl).concat([any_(4 * g.H * g.H), any_(2 * g.H), any_(2 * g.H * g.nsrc * g.nmask * g.F), any_(g.nsrc * g.nmask * g.F)])
    else [pos_(g.F * g.B), any_(g.H * g.B), any_(g.H), any_(g.F * g.H), any_(g.F)]

  action init = {
    nondet kd = 0.to(3).oneOf()
    nondet F = 2.to(4).oneOf()
    nondet B = 1.to(3).oneOf()
    nondet T = 1.to(5).oneOf()
    nondet pool = 1.to(3).oneOf()
    nondet K = Set(1, 3, 5).oneOf()
    nondet nsub = 1.to(2).oneOf()
    nondet mag = Set(true, false).oneOf()
    nondet logs = Set(true, false).oneOf()
    nondet H = 1.to(2).oneOf()
    nondet nl = 1.to(3).oneOf()
    nondet nsrc = 1.to(3).oneOf()
    nondet nmask = 1.to(5).oneOf()
    nondet ed = Set(1000, 1000000).oneOf()
    nondet den = Set(1, 8, 1000).oneOf()
    nondet cplx = 0.to(3).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    val kind = ["glu", "blstm", "masks", "simple"][kd]
    val g = { kind: kind, F: F, B: B, T: T, pool: pool, K: K, nsub: nsub, mag: mag, logs: logs, H: H, nl: nl, nsrc: nsrc, nmask: nmask,
      epsDen: if (kind == "masks") 1000 else 1000000, cplx: cplx > 0 or (not(mag) and (kind == "glu" or kind == "blstm")), seed: seed }
    val sh = shapes(g)
    all {
      cfg' = g,
      X' = signal(seed, 1, F, T, 9, den)[0].foldl([], (l, row) => l.append(row.foldl([], (r, z) => r.append(if (g.cplx) z else cx(z.re, 0))))),
      par' = range(0, sh.length()).foldl([], (l, i) => l.append(ints(seed + 7919 * (i + 1), sh[i].n, 12).foldl([], (r, k) =>
        r.append(if (sh[i].kind == 1) ofFrac(rabs(k) + 2, 8) else ofFrac(k, 12))))),
      act' = [], layer' = 0, pos' = 0, out' = [], phase' = "features",
    }
  }
  action same = all { cfg' = cfg, X' = X, par' = par }

  // ------------------------------------------------------------------ building blocks
  pure def lin(W: List[int], b: List[int], x: List[int]): List[int] = {
    val no = b.length()
    val ni = x.length()
    range(0, no).foldl([], (l, o) => l.append(b[o] + range(0, ni).foldl(0, (a, i) => a + rmul(W[o * ni + i], x[i]))))
  }
  pure def transpose(M: Frames): Frames =
    range(0, M[0].length()).foldl([], (l, j) => l.append(range(0, M.length()).foldl([], (r, i) => r.append(M[i][j]))))
  // convolution over time, centred; transposed: the mirrored kernel with exchanged weight layout
  pure def conv(W: List[int], b: List[int], K: int, tr: bool, A: Frames): Frames = {
    val no = b.length()
    val ni = A.length()
    val T = A[0].length()
    range(0, no).foldl([], (l, o) => l.append(range(0, T).foldl([], (r, t) =>
      r.append(b[o] + range(0, ni).foldl(0, (a, i) => range(0, K).foldl(a, (a2, k) => {
        val s = if (tr) t + K / 2 - k else t - K / 2 + k
        if (s < 0 or s >= T) a2 else a2 + rmul(if (tr) W[(i * no + o) * K + k] else W[(o * ni + i) * K + k], A[i][s])
      }))))))
  }
  pure def bnorm(p: List[List[int]], at: int, A: Frames): Frames =
    range(0, A.length()).foldl([], (l, c) => {
      val s = rdiv(p[at][c], rsqrt(p[at + 3][c] + ONE / 100000))
      l.append(A[c].foldl([], (r, x) => r.append(rmul(x - p[at + 2][c], s) + p[at + 1][c])))
    })
  // mel-like filter bank: fb[freq][band]
  pure def mel(fb: List[int], B: int, A: Frames): Frames =
    range(0, B).foldl([], (l, m) => l.append(range(0, A[0].length()).foldl([], (r, t) =>
      r.append(range(0, A.length()).foldl(0, (a, f) => a + rmul(fb[f * B + m], A[f][t]))))))
  // one direction of a recurrent layer; seq is a list over time
  pure def lstmDir(p: List[List[int]], at: int, H: int, seq: Frames): Frames =
    seq.foldl({ h: range(0, H).foldl([], (l, _) => l.append(0)), c: range(0, H).foldl([], (l, _) => l.append(0)), hs: [] }, (s, x) => {
      val g1 = lin(p[at], p[at + 2], x)
      val g2 = lin(p[at + 1], p[at + 3], s.h)
      val c2 = range(0, H).foldl([], (l, j) => l.append(
        rmul(sigm(g1[H + j] + g2[H + j]), s.c[j]) + rmul(sigm(g1[j] + g2[j]), rtanh(g1[2 * H + j] + g2[2 * H + j]))))
      val h2 = range(0, H).foldl([], (l, j) => l.append(rmul(sigm(g1[3 * H + j] + g2[3 * H + j]), rtanh(c2[j]))))
      { h: h2, c: c2, hs: s.hs.append(h2) }
    }).hs
  pure def rev(l: Frames): Frames = l.foldl([], (r, x) => [x].concat(r))
  pure def zipCat(a: Frames, b: Frames): Frames = range(0, a.length()).foldl([], (l, i) => l.append(a[i].concat(b[i])))

  pure def powers(S: List[List[Cx]]): Frames = S.foldl([], (l, row) => l.append(row.foldl([], (r, z) => r.append(mag2(z)))))
  pure def mapF(A: Frames, f: (int) => int): Frames = A.foldl([], (l, row) => l.append(row.foldl([], (r, x) => r.append(f(x)))))
  pure def meanOf(A: Frames): int = A.foldl(0, (a, row) => row.foldl(a, (b, x) => b + x)) / (A.length() * A[0].length())
  pure def reals(S: List[List[Cx]]): Frames = S.foldl([], (l, row) => l.append(row.foldl([], (r, z) => r.append(z.re))))
  pure def imags(S: List[List[Cx]]): Frames = S.foldl([], (l, row) => l.append(row.foldl([], (r, z) => r.append(z.im))))
  pure def log10(x: int): int = rdiv(rlog(x), LN10)

  // ------------------------------------------------------------------ input features
  action gluFeatures = all {
    phase == "features", cfg.kind == "glu", same,
    val P = powers(X)
    val g = rmax(meanOf(P), ONE / 100000)
    val sq = rmax(rsqrt(g), ONE / 10000000)
    val raw = if (cfg.mag) P.foldl([], (l, row) => l.append(row.foldl([], (r, x) => r.append(rdiv(x, g)))))
      else reals(X).concat(imags(X)).foldl([], (l, row) => l.append(row.foldl([], (r, x) => r.append(rdiv(x, sq)))))
    act' = if (cfg.logs) mapF(raw, x => log10(rabs(x) + ONE / 10000000)) else raw,
    layer' = 0, pos' = 0, out' = [], phase' = "glu",
  }
  // act becomes a list over time for the recurrent models
  action melFeatures = all {
    phase == "features", cfg.kind == "blstm", same,
    val A = if (cfg.mag) mel(par[0], cfg.B, powers(X)) else mel(par[0], cfg.B, reals(X)).concat(mel(par[0], cfg.B, imags(X)))
    act' = transpose(if (cfg.mag and cfg.logs) mapF(A, x => rlog(x + ONE / 10000000)) else A),
    layer' = 0, pos' = 1, out' = [], phase' = "lstm",
  }
  action logFeatures = all {
    phase == "features", cfg.kind == "masks", same,
    act' = transpose(mapF(powers(X), x => rlog(ONE + rsqrt(x)))),
    layer' = 0, pos' = 0, out' = [], phase' = "lstm",
  }
  action dbFeatures = all {
    phase == "features", cfg.kind == "simple", same,
    act' = transpose(mapF(mel(par[0], cfg.B, powers(X)), x => 10 * log10(x + ONE / cfg.epsDen))),
    layer' = 0, pos' = 1, out' = [], phase' = "dense",
  }

  // ------------------------------------------------------------------ layers
  // gated convolutions: three blocks, the first with one sublayer
  pure def blockOf(g: Cfg, l: int): int = if (l == 0) 0 else if (l <= g.nsub) 1 else 2
  action gluLayer = all {
    phase == "glu", layer < 1 + 2 * cfg.nsub, same,
    // the first block narrows or widens the features; widening uses transposed convolutions
    val tr = blockOf(cfg, layer) == 0 and act.length() < cfg.B
    val G = bnorm(par, pos + 8, conv(par[pos + 6], par[pos + 7], 3, tr, act))
    val L = bnorm(par, pos + 2, conv(par[pos], par[pos + 1], 3, tr, act))
    act' = range(0, L.length() / cfg.pool).foldl([], (l, c) => l.append(range(0, cfg.T).foldl([], (r, t) =>
      r.append(range(1, cfg.pool).foldl(rmul(sigm(G[c * cfg.pool][t]), L[c * cfg.pool][t]), (m, q) =>
        rmax(m, rmul(sigm(G[c * cfg.pool + q][t]), L[c * cfg.pool + q][t]))))))),
    pos' = pos + 12, layer' = layer + 1, out' = [], phase' = "glu",
  }
  action gluOutput = all {
    phase == "glu", layer == 1 + 2 * cfg.nsub, same,
    act' = conv(par[pos], par[pos + 1], cfg.K, true, act),
    pos' = pos + 2, layer' = layer, out' = [], phase' = "squash",
  }
  action lstmLayer = all {
    phase == "lstm", layer < (if (cfg.kind == "blstm") 3 else cfg.nl), same,
    act' = zipCat(lstmDir(par, pos, cfg.H, act), rev(lstmDir(par, pos + 4, cfg.H, rev(act)))),
    pos' = pos + 8, layer' = layer + 1, out' = [], phase' = "lstm",
  }
  action lstmOutput = all {
    phase == "lstm", layer == (if (cfg.kind == "blstm") 3 else cfg.nl), same,
    act' = if (cfg.kind == "blstm") transpose(act.foldl([], (l, x) => l.append(lin(par[pos], par[pos + 1], x))))
      else transpose(act.foldl([], (l, x) => {
        val h = lin(par[pos], par[pos + 1], x).foldl([], (r, y) => r.append(rmax(y, 0)))
        l.append(lin(par[pos + 2], par[pos + 3], h))
      })),
    pos' = pos, layer' = layer, out' = [], phase' = "squash",
  }
  action dense = all {
    phase == "dense", same,
    act' = transpose(act.foldl([], (l, x) => {
      val h = lin(par[1], par[2], x)
      l.append(lin(par[3], par[4], h))
    })),
    pos' = pos, layer' = layer, out' = [], phase' = "squash",
  }
  // weights between a small positive constant and one
  action squash = all {
    phase == "squash", same,
    val eps = ONE / cfg.epsDen
    out' = if (cfg.kind == "simple") mapF(act, x => sigm(eps + rmul(ONE - eps, x)))
      else mapF(act, x => {
        val floor = if (cfg.kind == "masks") eps else ONE / 100000
        rmul(sigm(x), ONE - floor) + floor
      }),
    act' = act, pos' = pos, layer' = layer, phase' = "done",
  }
  action step = any { gluFeatures, melFeatures, logFeatures, dbFeatures, gluLayer, gluOutput, lstmLayer, lstmOutput, dense, squash }

  // ------------------------------------------------------------------ properties
  val weightsInRange = out.foldl(true, (ok, row) => row.foldl(ok, (o2, w) => o2 and w >= 0 and w <= ONE))
  val floorKept = (cfg.kind != "simple") implies out.foldl(true, (ok, row) => row.foldl(ok, (o2, w) => o2 and w >= ONE / 100000 - 2^10))
  val outShape = (phase == "done") implies
    (out.length() == (if (cfg.kind == "masks") cfg.nsrc * cfg.nmask * cfg.F else cfg.F) and out[0].length() == cfg.T)
  // every parameter is used
  val complete = (phase == "squash" and cfg.kind == "glu") implies pos == par.length()
}
