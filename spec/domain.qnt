// The domain of every component: arguments outside of it are refused, by the
// construction or by the call they are given to, arguments inside of it (also at
// its edge) are accepted and give results of a determined shape, and a refused
// call leaves the object as it was.
module domain {
  const COMPONENTS: Set[str]
  const MAXC: int                          // largest number of channels
  const MAXCALLS: int
  // choices of windows, masks, frequencies, frames, numbers of dimensions, names and exponents
  const LENS: Set[int]
  const MASKS: Set[int]
  const FREQS: Set[int]
  const FRAMES: Set[int]
  const RANKS: Set[int]
  const KINDS: Set[int]
  const QUARTERS: Set[int]

  pure val NONE = -1                       // None
  pure val OMITTED = -2                    // not given in the call
  type Build = { nsrc: int, mic: int, masks: int, name: int, len: int }
  // chans, freqs, frames: shape of the input; kind: number of dimensions or name
  type Call = { chans: int, freqs: int, frames: int, nsrc: int, mic: int, rank: int, kind: int, p: int, q: int }
  type Outcome = { ok: bool, shape: List[int] }
  type Step = { call: Call, out: Outcome }

  var comp: str
  var build: Build
  var built: bool
  var held: List[int]                      // shape a stateful model is bound to
  var accepted: List[Call]                 // what shaped the object's state
  var steps: List[Step]
  var phase: str

  pure val NFFT = 16
  // ------------------------------------------------------------------ the domain
  pure def refused: Outcome = { ok: false, shape: [] }
  pure def yes(s: List[int]): Outcome = { ok: true, shape: s }
  pure def only(b: bool, s: List[int]): Outcome = if (b) yes(s) else refused

  // separation algorithms of the end-to-end separator
  pure val ALGOS = ["tiss", "ip2", "five", "mvdr", "mwf", "gev", "ip", "TISS", ""]
  pure val WINDOWS = ["hann", "hamming", "blackman", "bartlett", "nosuchwindow"]
  pure val MODES = ["full", "same", "valid", "circular", "FULL"]

  // only constructions check what does not depend on the input
  pure def buildOk(c: str, b: Build): bool =
    if (Set("tiss", "ip", "ip2", "five").contains(c)) b.name < 3                    // the model can be called
    else if (c == "stft" or c == "istft") { (if (b.len <= 0) b.name < 4 else (b.len == NFFT and b.masks == 1)) }
    else if (c == "sep") b.name < 6
    else true

  pure def effective(given: int, own: int): int = if (given == OMITTED) own else given

  pure def separate(c: str, b: Build, k: Call): Outcome = {
    val n0 = effective(k.nsrc, b.nsrc)
    val n = if (c == "five") 1 else if (n0 == NONE or c == "ip2") k.chans else n0
    val m = effective(k.mic, b.mic)
    only(k.rank == 3 and n <= k.chans and m < k.chans and (c == "ip2" implies k.chans == 2), [n, k.freqs, k.frames])
  }
  pure def beamform(c: str, b: Build, k: Call): Outcome =
    only(k.rank == 3 and b.mic < k.chans and (
      if (c == "mvdr") Set(2, 3).contains(b.masks) and b.name < 2
      else if (c == "mwf") { if (b.name == 0) b.masks >= 2 else b.masks == 4 }
      else b.masks >= 2), [2, k.freqs, k.frames])
  pure def pipeline(b: Build, k: Call): Outcome = {
    val a = ALGOS[b.name]
    val n = if (a == "tiss") { if (b.nsrc == NONE) k.chans else b.nsrc } else if (a == "five") 1 else 2
    only(k.frames > NFFT / 2 and b.mic < k.chans and n <= (if (a == "tiss") k.chans else n) and (a == "ip2" implies k.chans == 2), [n, k.frames])
  }
  // exponents in quarters; 0 is None
  pure def distortion(k: Call): Outcome =
    only(if (k.p == 8 and (k.q == 0 or k.q == 8)) true
      else if (k.q == 0 or k.p == k.q) k.p > 0 and k.p < 8
      else k.p > 0 and k.p <= k.q and k.q <= 8, [k.chans, k.freqs, k.frames])

  pure def outcome(c: str, b: Build, h: List[int], k: Call): Outcome =
    if (Set("tiss", "ip", "ip2", "five").contains(c)) separate(c, b, k)
    else if (Set("mvdr", "mwf", "gev").contains(c)) beamform(c, b, k)
    else if (c == "sep") pipeline(b, k)
    else if (c == "stft") only(k.frames > NFFT / 2, [k.chans, NFFT / 2 + 1, 1 + k.frames / (NFFT / 4)])
    else if (c == "istft") only(k.freqs == NFFT / 2 + 1, [k.chans, (k.frames - 1) * (NFFT / 4)])
    // a model with state is bound to the shape of its first input until it is reset (kind 0)
    else if (c == "nmf") only(k.rank >= 2 and (h == [] or h == [k.chans, k.freqs, k.frames]), [k.chans, k.freqs, k.frames])
    else if (Set("glu", "blstm", "simple").contains(c)) only(k.freqs == b.len, [k.chans, k.freqs, k.frames])
    else if (c == "md") distortion(k)
    else if (c == "conv") only(k.kind < 3 and k.mic >= -2 and k.mic < 2, [])
    // sizes of the matrices: chans x freqs, and nsrc x mic for the second one
    else if (c == "inv2") only(k.chans == 2 and k.freqs == 2, [2, 2])
    else if (c == "eigh2") only(k.chans == 2 and k.freqs == 2 and (k.kind == 0 or (k.nsrc == 2 and k.mic == 2)), [2, 2])
    else if (c == "format") only(k.kind < 4, [])
    else refused

  // ------------------------------------------------------------------ transitions
  action init = {
    nondet c = COMPONENTS.oneOf()
    nondet ns = (-1).to(MAXC + 1).oneOf()
    nondet mi = (-1).to(MAXC).oneOf()
    nondet ma = MASKS.oneOf()
    nondet na = KINDS.oneOf()
    nondet le = LENS.oneOf()
    val b = { nsrc: if (ns == 0) NONE else ns,
      mic: if (mi < 0 and not(Set("tiss", "ip").contains(c))) 0 else mi, masks: ma,
      name: if (Set("tiss", "ip", "ip2", "five").contains(c)) na / 2 else if (c == "mvdr") { if (ma == 2) na % 3 else na % 2 } else if (c == "mwf") na % 2 else if (c == "stft" or c == "istft") na % 5 else na,
      len: if (Set("glu", "blstm", "simple").contains(c)) 5 else le }
    all {
      comp' = c, build' = b, built' = buildOk(c, b), held' = [], accepted' = [], steps' = [], phase' = if (buildOk(c, b)) "ready" else "none",
    }
  }

  action call = all {
    phase == "ready", steps.length() < MAXCALLS,
    nondet ch = 1.to(MAXC).oneOf()
    nondet fr = FREQS.oneOf()
    nondet nn = FRAMES.oneOf()
    nondet ns = (-2).to(MAXC + 1).oneOf()
    nondet mi = (-3).to(MAXC).oneOf()
    nondet rank0 = RANKS.oneOf()
    nondet kind = KINDS.oneOf()
    nondet p = QUARTERS.oneOf()
    nondet q0 = QUARTERS.oneOf()
    // mostly inputs with the right number of dimensions
    val rank = if (rank0 > 3) 3 else rank0
    val q = if (q0 < 0) 0 else q0
    val n0 = if (comp == "eigh2" and kind < 3) 2 else if (ns <= 0 and not(Set("inv2", "eigh2").contains(comp))) OMITTED else ns
    val m0 = if (comp == "eigh2" and kind < 3) 2 else if (comp == "conv") mi else if (mi < 0) OMITTED else mi
    // frequencies and frames are of no importance for the separators
    val f0 = if (Set("tiss", "ip", "ip2", "five", "mvdr", "mwf", "gev").contains(comp)) 3
      else if (comp == "inv2" or comp == "eigh2") { if (kind < 4) 2 else fr } else if (comp == "istft" and fr == 4) 9
      else if (Set("glu", "blstm", "simple").contains(comp) and fr == 2) 5 else if (comp == "nmf") 2 + fr % 3 else fr
    val c0 = if (comp == "nmf") 2 + ch % 2 else if (comp == "ip2" and ch == MAXC) 2 else ch
    val t0 = if (Set("tiss", "ip", "ip2", "five", "mvdr", "mwf", "gev", "nmf").contains(comp)) 12 + 2 * (nn % 2) else nn
    val k = { chans: c0, freqs: f0, frames: t0, nsrc: n0, mic: m0, rank: rank, kind: kind, p: p, q: q }
    // a model with state is reset before calls of kind 0, whether they are accepted or not
    val h = if (kind == 0) [] else held
    val o = outcome(comp, build, h, k)
    all {
      steps' = steps.append({ call: k, out: o }),
      // a refused call changes nothing
      held' = if (o.ok and comp == "nmf") [c0, f0, t0] else h,
      accepted' = (if (kind == 0) [] else accepted).concat(if (o.ok) [k] else []),
      comp' = comp, build' = build, built' = built, phase' = phase,
    }
  }
  action rest = all {
    phase == "none" or steps.length() == MAXCALLS,
    comp' = comp, build' = build, built' = built, held' = held, accepted' = accepted, steps' = steps, phase' = phase,
  }
  action step = any { call, rest }

  // ------------------------------------------------------------------ properties
  // nothing beyond the input's channels is ever returned or referred to
  val withinInput = steps.indices().forall(i => {
    val s = steps[i]
    (s.out.ok and Set("tiss", "ip", "ip2", "five").contains(comp)) implies (s.out.shape[0] <= s.call.chans and effective(s.call.mic, build.mic) < s.call.chans)
  })
  // the state is a function of the accepted calls alone
  val refusedLeavesNothing = held == (if (comp == "nmf" and accepted.length() > 0) {
    val k = accepted[accepted.length() - 1]
    [k.chans, k.freqs, k.frames]
  } else [])
  val nothingWithoutObject = not(built) implies steps == []
}
module domainSmall {
  import domain(COMPONENTS = Set("tiss", "nmf", "stft"), MAXC = 1, MAXCALLS = 2, LENS = Set(0), MASKS = Set(1), FREQS = Set(3, 4), FRAMES = Set(8, 9),
    RANKS = Set(3), KINDS = Set(0, 4), QUARTERS = Set(4)).*
}
module domainFull {
  import domain(COMPONENTS = Set("tiss", "ip", "ip2", "five", "mvdr", "mwf", "gev", "sep", "stft", "istft", "nmf", "glu", "blstm", "simple", "md", "conv", "inv2", "eigh2", "format"),
    MAXC = 4, MAXCALLS = 4, LENS = Set(-1, 0, 5, 15, 16, 17), MASKS = 1.to(4), FREQS = Set(2, 3, 4, 5, 8, 9), FRAMES = Set(7, 8, 9, 12, 20), RANKS = 1.to(8),
    KINDS = 0.to(8), QUARTERS = (-1).to(10)).*
}
