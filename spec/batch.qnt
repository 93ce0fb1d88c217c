// Batches: a component is called on arrangements of recordings.  What it returns
// for a recording depends on that recording alone, wherever it stands in
// whatever arrangement, and on no earlier call.
module batch {
  const COMPONENTS: Set[str]
  const ITEMS: Set[int]                    // recordings
  const VARIANTS: Set[int]                 // parameter sets of a component
  const WIDTH: int
  const MAXCALLS: int
  const LARGE: Set[int]                    // sizes of large batches
  const CHUNK: int                         // recordings that are processed together

  // shape: sizes of the batch dimensions ([] is a single recording without batch dimension)
  type Call = { items: List[int], shape: List[int] }
  var comp: str
  var setting: int
  var cur: Call
  var results: List[int]                   // recording every result belongs to
  var done: List[{ call: Call, results: List[int] }]
  var phase: str

  action init = {
    nondet c = COMPONENTS.oneOf()
    nondet v = VARIANTS.oneOf()
    all { comp' = c, setting' = v, cur' = { items: [], shape: [] }, results' = [], done' = [], phase' = "idle" }
  }
  pure def shapes(n: int): Set[List[int]] =
    if (n == 1) Set([], [1], [1, 1])
    else if (n == 4) Set([4], [2, 2], [1, 4], [4, 1], [2, 1, 2])
    else if (n == 6) Set([6], [2, 3], [3, 2])
    else if (n == 24) Set([24], [4, 6], [2, 3, 4], [1, 24], [24, 1], [2, 12])
    else Set([n], [1, n], [n, 1])

  action call = all {
    phase == "idle", done.length() < MAXCALLS,
    nondet small = 1.to(WIDTH).oneOf()
    nondet many = LARGE.union(Set(1)).oneOf()
    nondet big = 0.to(3).oneOf()
    val n = if (big == 0) many else small
    nondet pick = 1.to(LARGE.fold(WIDTH, (m, k) => if (k > m) k else m)).setOfMaps(ITEMS).oneOf()
    nondet sh = shapes(n).oneOf()
    cur' = { items: range(1, n + 1).foldl([], (l, i) => l.append(pick.get(i))), shape: sh },
    comp' = comp, setting' = setting, results' = [], done' = done, phase' = "work",
  }
  // the elements are processed in any order, each from its own recording
  action work = all {
    phase == "work", results.length() < cur.items.length(),
    val upto = if (results.length() + CHUNK < cur.items.length()) results.length() + CHUNK else cur.items.length()
    results' = results.concat(cur.items.slice(results.length(), upto)),
    comp' = comp, setting' = setting, cur' = cur, done' = done, phase' = "work",
  }
  action answer = all {
    phase == "work", results.length() == cur.items.length(),
    done' = done.append({ call: cur, results: results }),
    comp' = comp, setting' = setting, cur' = cur, results' = [], phase' = "idle",
  }
  action step = any { call, work, answer }

  // ------------------------------------------------------------------ properties
  val independent = done.foldl(true, (ok, d) => ok and d.results == d.call.items)
  val shaped = done.foldl(true, (ok, d) => ok and d.call.shape.foldl(1, (p, k) => p * k) == d.results.length())
}

module batchSmall {
  import batch(COMPONENTS = Set("any"), ITEMS = 0.to(1), VARIANTS = Set(0), WIDTH = 4, MAXCALLS = 2, LARGE = Set(5), CHUNK = 2).*
}
module batchFull {
  import batch(
    COMPONENTS = Set("tiss", "tiss", "ip", "ip2", "five", "wpe", "mvdr", "mwf", "gev", "stft", "istft", "sep", "glu", "blstm", "simple", "masks",
      "laplace", "gauss", "pb", "l2", "phase", "energetic", "conv", "linalg"),
    ITEMS = 0.to(4), VARIANTS = 0.to(5), WIDTH = 6, MAXCALLS = 3,
    LARGE = Set(12, 13, 16, 17, 24, 33), CHUNK = 6).*
}
