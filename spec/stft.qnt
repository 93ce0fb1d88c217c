// Short-time Fourier analysis and synthesis, and the time-domain pipeline
// around a separator: the output has the length of the input.
module stft {
  import fx.* from "./fx"

  type Cfg = { nfft: int, hop: int, win: str, T: int, C: int, seed: int, arbitrary: bool, dflt: str, given: str, own: str, den: int }

  var cfg: Cfg
  var x: List[List[int]]                   // samples [chan][time]
  var w: List[int]                         // window
  var X: List[List[List[Cx]]]              // spectrogram [chan][freq][frame]
  var y: List[List[int]]                   // synthesis [chan][time]
  var fitted: List[List[int]]              // cut or padded to the length of the input
  var format: str                          // number format of the window
  var phase: str

  pure val PI: int = 248902613312231085230521944622

  // cos and sin of an angle in [0, 2 pi), by their series around 0 after reduction to [-pi, pi]
  pure def cosSin(a: int): Cx = {
    val r = if (a > PI) a - 2 * PI else a
    range(1, 40).foldl({ t: { re: ONE, im: 0 }, s: { re: ONE, im: 0 } }, (acc, k) => {
      // t_k = t_{k-1} * (i r) / k
      val t = { re: -rmul(acc.t.im, r) / k, im: rmul(acc.t.re, r) / k }
      { t: t, s: cadd(acc.s, t) }
    }).s
  }
  pure def roots(n: int): List[Cx] = tab1(n, k => cosSin((2 * PI * k) / n))

  pure def windowOf(c: Cfg): List[int] = {
    val z = roots(c.nfft)
    val raw = ints(c.seed + 5, c.nfft, 8)
    tab1(c.nfft, k =>
      if (c.win == "hann") (ONE - z[k].re) / 2
      else if (c.win == "hamming") ofFrac(54, 100) - rmul(ofFrac(46, 100), z[k].re)
      else if (c.win == "blackman")
        ofFrac(42, 100) - z[k].re / 2 + rmul(ofFrac(8, 100), z[(2 * k) % c.nfft].re)
      else if (c.win == "boxcar") ONE
      else ofFrac(raw[k] + 10, 8))
  }

  // number format of the transform: the one given, else that of a custom window, else the default
  pure def formatOf(c: Cfg): str = if (c.given != "none") c.given else if (c.win == "custom") c.own else c.dflt

  pure def hopOf(c: Cfg): int = if (c.hop == 0) c.nfft / 4 else c.hop
  pure def half(c: Cfg): int = c.nfft / 2
  pure def frames(c: Cfg): int = 1 + (c.T + 2 * half(c) - c.nfft) / hopOf(c)
  pure def bins(c: Cfg): int = c.nfft / 2 + 1
  // reflection of a position around the ends of 0 .. n-1
  pure def reflect(i: int, n: int): int = if (i < 0) -i else if (i >= n) 2 * (n - 1) - i else i

  // squared window overlap at position p of the padded signal
  pure def envelope(c: Cfg, win: List[int], p: int): int =
    range(0, frames(c)).foldl(0, (a, m) => {
      val k = p - m * hopOf(c)
      if (k >= 0 and k < c.nfft) a + rmul(win[k], win[k]) else a
    })
  pure def synthLen(c: Cfg): int = c.nfft + hopOf(c) * (frames(c) - 1) - 2 * half(c)
  // every synthesised sample is covered
  pure def invertible(c: Cfg, win: List[int]): bool =
    synthLen(c) >= 1 and 0.to(synthLen(c) - 1).forall(t => envelope(c, win, t + half(c)) > ONE / 1000000)

  action begin(c: Cfg): bool = all {
    cfg' = c,
    x' = {
      val raw = ints(c.seed, c.C * c.T, 99)
      tab2(c.C, c.T, (ch, t) => ofFrac(raw[ch * c.T + t], c.den))
    },
    format' = formatOf(c),
    w' = windowOf(c), X' = [], y' = [], fitted' = [], phase' = "analysis",
  }
  // double precision more often
  pure def fmt(k: int): str = if (k == 0) "single" else "double"
  action small = {
    nondet nfft = Set(4, 5, 6, 8, 9, 12, 16).oneOf()
    nondet hop = Set(0, 0, 1, 2, 3, 4, nfft / 2, nfft).oneOf()
    nondet win = Set("hann", "hamming", "blackman", "boxcar", "custom").oneOf()
    nondet extra = 1.to(24).oneOf()
    nondet C = 1.to(3).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    nondet arbitrary = Set(true, false).oneOf()
    nondet dflt = 0.to(2).oneOf()
    nondet given = 0.to(4).oneOf()
    nondet own = 0.to(2).oneOf()
    nondet den = Set(16, 1, 1000000).oneOf()
    begin({ dflt: fmt(dflt), given: if (given > 2) "none" else fmt(given), own: fmt(own), nfft: nfft, hop: hop, win: win,
            T: nfft / 2 + extra, C: C, seed: seed, arbitrary: arbitrary, den: den })
  }
  // longer windows, longer signals, more channels
  action large = {
    nondet nfft = Set(20, 25, 32, 40).oneOf()
    nondet hop = Set(0, 5, 7, nfft / 2, nfft / 3).oneOf()
    nondet win = Set("hann", "hamming", "blackman", "boxcar", "custom").oneOf()
    nondet extra = Set(1, 13, 50, 101).oneOf()
    nondet C = Set(1, 2, 6).oneOf()
    nondet seed = 0.to(2^40).oneOf()
    nondet arbitrary = Set(true, false).oneOf()
    nondet given = 0.to(4).oneOf()
    begin({ dflt: "double", given: if (given > 2) "none" else fmt(given), own: "double", nfft: nfft, hop: hop, win: win,
            T: nfft / 2 + extra, C: if (extra > 50) 1 else C, seed: seed, arbitrary: arbitrary, den: 16 })
  }
  action init = any { small, small, small, small, small, large }

  // centred frames of the reflected signal, windowed, one-sided transform
  action analyse = all {
    phase == "analysis",
    val z = roots(cfg.nfft)
    X' = tab3(cfg.C, bins(cfg), frames(cfg), (ch, f, m) => {
      val s = range(0, cfg.nfft).foldl(C0, (a, k) => {
        val v = rmul(w[k], x[ch][reflect(m * hopOf(cfg) + k - half(cfg), cfg.T)])
        cadd(a, cscale(conj(z[(f * k) % cfg.nfft]), v))
      })
      s
    }),
    phase' = if (invertible(cfg, w)) { if (cfg.arbitrary) "process" else "synthesis" } else "done",
    format' = format, cfg' = cfg, x' = x, w' = w, y' = y, fitted' = fitted,
  }

  // a separator may return any spectrogram of that shape
  action process = all {
    phase == "process",
    X' = signal(cfg.seed + 11, cfg.C, bins(cfg), frames(cfg), 50, 8),
    phase' = "synthesis",
    format' = format, cfg' = cfg, x' = x, w' = w, y' = y, fitted' = fitted,
  }

  // weighted overlap-add of the real inverse transforms
  action synthesise = all {
    phase == "synthesis",
    val z = roots(cfg.nfft)
    val fr = tab3(cfg.C, frames(cfg), cfg.nfft, (ch, m, k) => {
      val s = range(0, bins(cfg)).foldl(0, (a, f) => {
        val t = cmul(X[ch][f][m], z[(f * k) % cfg.nfft]).re
        // bins without a mirror image count once, and only by their real part
        if (f == 0 or 2 * f == cfg.nfft) a + rmul(X[ch][f][m].re, z[(f * k) % cfg.nfft].re) else a + 2 * t
      })
      rmul(w[k], s / cfg.nfft)
    })
    y' = tab2(cfg.C, synthLen(cfg), (ch, t) => {
      val p = t + half(cfg)
      val num = range(0, frames(cfg)).foldl(0, (a, m) => {
        val k = p - m * hopOf(cfg)
        if (k >= 0 and k < cfg.nfft) a + fr[ch][m][k] else a
      })
      rdiv(num, envelope(cfg, w, p))
    }),
    phase' = "fit",
    format' = format, cfg' = cfg, x' = x, w' = w, X' = X, fitted' = fitted,
  }

  action fit = all {
    phase == "fit",
    fitted' = tab2(cfg.C, cfg.T, (ch, t) => if (t < synthLen(cfg)) y[ch][t] else 0),
    phase' = "done",
    format' = format, cfg' = cfg, x' = x, w' = w, X' = X, y' = y,
  }

  action step = any { analyse, process, synthesise, fit }

  // ------------------------------------------------------------------ properties of the design
  // analysis followed by synthesis gives back every covered sample
  val perfectReconstruction = (y != [] and not(cfg.arbitrary)) implies
    0.to(cfg.C - 1).forall(ch => 0.to(rmin(cfg.T, synthLen(cfg)) - 1).forall(t =>
      rabs(y[ch][t] - x[ch][t]) < ONE / 10^15))
  // at most one hop is lost at the end
  val coverage = synthLen(cfg) > cfg.T - hopOf(cfg)
  val sameLength = fitted != [] implies 0.to(cfg.C - 1).forall(ch => fitted[ch].length() == cfg.T)
}
