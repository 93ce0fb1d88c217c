// Number formats: objects are constructed and called while the process-wide
// default format changes; a call computes in the format of its input.
// A component with an analysis window (WINDOWED) is the exception: the window
// has the format that was the default at construction, so the result has the
// wider and the accuracy of the narrower of the two formats.
module precision {
  const WINDOWED: Set[str]
  const COMPONENTS: Set[str]
  const SETTINGS: Set[int]
  const MAXCALLS: int

  // formats: 32 or 64 bits per real number
  type Call = { bits: int, default: int, input: int, result: int, accuracy: int }
  var comp: str
  var setting: int
  var default: int                         // process-wide default
  var built: int                           // default at construction, 0: not constructed
  var calls: List[Call]

  def wider(b: int): int = if (WINDOWED.contains(comp) and built > b) built else b
  def narrower(b: int): int = if (WINDOWED.contains(comp) and built < b) built else b

  action init = {
    nondet c = COMPONENTS.oneOf()
    nondet s = SETTINGS.oneOf()
    nondet d = Set(32, 64).oneOf()
    all { comp' = c, setting' = s, default' = d, built' = 0, calls' = [] }
  }
  action construct = all {
    built == 0,
    built' = default, comp' = comp, setting' = setting, default' = default, calls' = calls,
  }
  action switch = all {
    calls.length() < MAXCALLS,
    default' = 96 - default, built' = built, comp' = comp, setting' = setting, calls' = calls,
  }
  action call = all {
    built > 0, calls.length() < MAXCALLS,
    nondet b = Set(32, 64).oneOf()
    nondet i = 0.to(2).oneOf()
    calls' = calls.append({ bits: b, default: default, input: i, result: wider(b), accuracy: narrower(b) }),
    built' = built, comp' = comp, setting' = setting, default' = default,
  }
  action rest = all {
    calls.length() == MAXCALLS,
    built' = built, comp' = comp, setting' = setting, default' = default, calls' = calls,
  }
  action step = any { construct, switch, call, call, rest }

  // the format of a result is the format of its input, whatever the default was
  val follows = calls.foldl(true, (ok, c) => ok and c.result >= c.bits and c.accuracy <= c.bits
    and (WINDOWED.contains(comp) or and { c.result == c.bits, c.accuracy == c.bits })
    and (built == c.bits implies c.result == c.bits))
  // the same input in the same format gives the same kind of result at any time
  val constant_in_time = calls.indices().forall(i => calls.indices().forall(j =>
    calls[i].bits == calls[j].bits implies
      (calls[i].result == calls[j].result and calls[i].accuracy == calls[j].accuracy)))
}
module precisionSmall {
  import precision(COMPONENTS = Set("any", "window"), WINDOWED = Set("window"), SETTINGS = Set(0), MAXCALLS = 4).*
}
module precisionFull {
  import precision(
    COMPONENTS = Set("tiss", "ip", "ip2", "five", "wpe", "mvdr", "mwf", "gev", "stft", "istft", "sep", "glu", "blstm", "simple", "masks",
      "laplace", "gauss", "nmf", "pb", "l2", "phase", "md", "energetic", "conv", "linalg"),
    WINDOWED = Set("stft", "istft", "sep"), SETTINGS = 0.to(5), MAXCALLS = 4).*
}
