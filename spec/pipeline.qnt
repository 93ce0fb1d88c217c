// The end-to-end separator: analysis, the chosen algorithm with the parameters
// it understands, synthesis, and an output as long as the input.
module pipeline {
  type Params = str -> int                 // parameter -> index of its value
  type Engine = { cls: str, params: Params }

  pure val ALL = Set("n_iter", "hop_length", "window", "n_taps", "n_delay", "n_src", "source_model", "proj_back_mic",
                     "use_dmc", "n_power_iter", "eps")
  // which parameter of the algorithm each parameter of the separator becomes
  pure val ROLE: str -> (str -> str) = Map(
    "tiss" -> Map("n_iter" -> "n_iter", "n_taps" -> "n_taps", "n_delay" -> "n_delay", "n_src" -> "n_src",
                  "source_model" -> "model", "proj_back_mic" -> "proj_back_mic", "use_dmc" -> "use_dmc", "eps" -> "eps"),
    "ip2" -> Map("n_iter" -> "n_iter", "source_model" -> "model", "proj_back_mic" -> "proj_back_mic", "eps" -> "eps"),
    "five" -> Map("n_iter" -> "n_iter", "source_model" -> "model", "proj_back_mic" -> "proj_back_mic", "eps" -> "eps",
                  "n_power_iter" -> "n_power_iter"),
    "mvdr" -> Map("source_model" -> "mask_model", "proj_back_mic" -> "ref_mic", "eps" -> "eps", "n_power_iter" -> "n_power_iter"),
    "mwf" -> Map("source_model" -> "mask_model", "proj_back_mic" -> "ref_mic", "eps" -> "eps"),
    "gev" -> Map("source_model" -> "mask_model", "proj_back_mic" -> "ref_mic", "eps" -> "eps"))
  pure val ALGOS = ROLE.keys()
  pure val BEAMFORMERS = Set("mvdr", "mwf", "gev")

  // how many values there are for a parameter
  pure val COUNT: Params = Map("n_iter" -> 4, "hop_length" -> 6, "window" -> 7, "n_taps" -> 5, "n_delay" -> 4, "n_src" -> 5,
    "source_model" -> 6, "proj_back_mic" -> 4, "use_dmc" -> 2, "n_power_iter" -> 4, "eps" -> 5)

  var algo: str
  var given: Params                        // -1: not given
  var engine: Engine
  var nfft: int
  var chans: int
  var lengths: List[int]                   // lengths of the signals processed so far
  var outs: List[{ sources: int, length: int }]
  var phase: str

  action init = {
    nondet a = ALGOS.oneOf()
    nondet vals = ALL.setOfMaps(0.to(419)).oneOf()
    nondet absent = ALL.powerset().oneOf()
    nondet n = Set(8, 16, 12, 20, 32).oneOf()
    nondet c = Set(2, 3, 4, 6).oneOf()
    // beamformers need a mask model, and references cannot be None for them
    val must = if (BEAMFORMERS.contains(a)) Set("source_model", "proj_back_mic") else Set()
    val g = ALL.mapBy(p => if (absent.contains(p) and not(must.contains(p))) -1 else vals.get(p) % COUNT.get(p))
    all {
      algo' = a, given' = g, nfft' = n, chans' = if (a == "ip2") 2 else c,
      engine' = { cls: "", params: Map() }, lengths' = [], outs' = [], phase' = "configure",
    }
  }

  // parameters the algorithm does not know are ignored, the others keep their value
  action configure = all {
    phase == "configure",
    val r = ROLE.get(algo)
    engine' = {
      cls: algo,
      params: r.keys().map(k => (r.get(k), given.get(k))).setToMap(),
    },
    phase' = "ready",
    algo' = algo, given' = given, nfft' = nfft, chans' = chans, lengths' = lengths, outs' = outs,
  }

  action separate = all {
    phase == "ready",
    lengths.length() < 3,
    nondet short = 8.to(60).oneOf()
    nondet long = 61.to(400).oneOf()
    nondet k = 0.to(3).oneOf()
    val len = if (k == 0) long else short
    all {
      lengths' = lengths.append(len),
      outs' = outs.append({
        sources: if (algo == "five") 1
                 else if (algo == "ip2") 2
                 else if (BEAMFORMERS.contains(algo)) 2
                 else if (given.get("n_src") <= 0 or given.get("n_src") > chans) chans else given.get("n_src"),
        length: len,
      }),
    },
    algo' = algo, given' = given, engine' = engine, nfft' = nfft, chans' = chans, phase' = phase,
  }

  action step = any { configure, separate }

  val lengthPreserved = outs.indices().forall(i => outs[i].length == lengths[i])
  val engineKnowsItsParameters = phase == "ready" implies
    engine.params.keys() == ROLE.get(algo).keys().map(k => ROLE.get(algo).get(k))
}
