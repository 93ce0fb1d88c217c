// Documented defaults: a parameter that is left out has its default value,
// one that is given its given value, in every combination.
module defaults {
  // the name, the documented default and other values, as literals
  type Par = { name: str, dflt: str, others: List[str] }
  const PARS: str -> List[Par]
  const COMPONENTS: Set[str]
  const MAXUSES: int

  var comp: str
  var given: List[int]                   // per parameter: -1 left out, else index into others
  var order: int                         // order in which keywords are written
  var values: List[str]                  // what the object works with
  var uses: List[int]                    // inputs used
  var phase: str

  action init = {
    nondet c = COMPONENTS.oneOf()
    nondet o = 0.to(5).oneOf()
    all { comp' = c, order' = o, given' = [], values' = [], uses' = [], phase' = "choose" }
  }
  // one parameter after the other is left out or given
  action choose = all {
    phase == "choose", given.length() < PARS.get(comp).length(),
    nondet g = Set(-3, -2, -1, 0, 1, 2).oneOf()
    given' = given.append(if (g < 0 or g >= PARS.get(comp)[given.length()].others.length()) -1 else g),
    comp' = comp, order' = order, values' = values, uses' = uses, phase' = phase,
  }
  action construct = all {
    phase == "choose", given.length() == PARS.get(comp).length(),
    values' = given.indices().fold([], (l, _) => l.append(
      val i = l.length()
      if (given[i] == -1) PARS.get(comp)[i].dflt else PARS.get(comp)[i].others[given[i]])),
    comp' = comp, order' = order, given' = given, uses' = uses, phase' = "use",
  }
  action use = all {
    phase == "use", uses.length() < MAXUSES,
    nondet i = 0.to(3).oneOf()
    uses' = uses.append(i),
    comp' = comp, order' = order, given' = given, values' = values, phase' = phase,
  }
  action rest = all {
    phase == "use", uses.length() == MAXUSES,
    comp' = comp, order' = order, given' = given, values' = values, uses' = uses, phase' = phase,
  }
  action step = any { choose, construct, use, rest }

  // a parameter only has another value than its default when it was given
  val leftOutIsDefault = phase == "use" implies given.indices().forall(i =>
    given[i] == -1 implies values[i] == PARS.get(comp)[i].dflt)
  val givenCounts = phase == "use" implies given.indices().forall(i =>
    given[i] >= 0 implies values[i] == PARS.get(comp)[i].others[given[i]])
}
module defaultsSmall {
  pure val P = Map("a" -> [{ name: "x", dflt: "0", others: ["1", "2"] }, { name: "y", dflt: "None", others: ["1"] }],
    "b" -> [{ name: "x", dflt: "1", others: ["0", "2"] }, { name: "z", dflt: "True", others: ["False"] }, { name: "y", dflt: "0", others: ["1"] }])
  import defaults(PARS = P, COMPONENTS = Set("a", "b"), MAXUSES = 2).*
}
module defaultsFull {
  pure def par(n: str, d: str, o: List[str]): { name: str, dflt: str, others: List[str] } = { name: n, dflt: d, others: o }
  // $C: number of channels; $laplace, $gauss: a model; $wpe: the default weights of WPE
  pure val P = Map(
    "T_ISS" -> [par("n_iter", "10", ["1", "3", "0"]), par("n_taps", "0", ["1", "2"]), par("n_delay", "0", ["1", "2"]), par("n_src", "$C", ["1", "2"]),
      par("model", "$laplace", ["$gauss", "$soft"]), par("proj_back_mic", "0", ["1", "2"]), par("use_dmc", "False", ["True"]), par("eps", "1e-5", ["1e-3", "1e-8", "0.0"])],
    "AuxIVA_IP" -> [par("n_iter", "10", ["1", "3", "0"]), par("n_src", "$C", ["1", "2"]), par("model", "$laplace", ["$gauss", "$soft"]), par("proj_back_mic", "0", ["1", "2"]),
      par("eps", "1e-5", ["1e-3", "1e-8", "0.0"])],
    "AuxIVA_IP2" -> [par("n_iter", "10", ["1", "3", "0"]), par("model", "$laplace", ["$gauss", "$soft"]), par("proj_back_mic", "0", ["1"]), par("eps", "1e-5", ["1e-3", "1e-8", "0.0"])],
    "FIVE" -> [par("n_iter", "10", ["1", "3", "0"]), par("model", "$laplace", ["$gauss", "$soft"]), par("proj_back_mic", "0", ["1", "2"]), par("eps", "1e-5", ["1e-3", "0.0"]),
      par("n_power_iter", "None", ["1", "2"])],
    "WPE" -> [par("n_iter", "3", ["1", "2", "0"]), par("n_taps", "5", ["1", "2"]), par("n_delay", "3", ["1", "2", "0"]), par("model", "$wpe", ["$wpe1"]), par("eps", "1e-5", ["1e-3", "1e-8", "0.0"])],
    "MVDRBeamformer" -> [par("ref_mic", "0", ["1", "2"]), par("eps", "1e-5", ["1e-2", "0.0"]), par("mvdr_type", "rtf", ["scm"]), par("n_power_iter", "None", ["1", "3"])],
    "MWFBeamformer" -> [par("ref_mic", "0", ["1", "2"]), par("eps", "1e-5", ["1e-2", "0.0"]), par("time_invariant", "True", ["False"])],
    "GEVBeamformer" -> [par("ref_mic", "0", ["1", "2"]), par("eps", "1e-5", ["1e-2", "0.0"])],
    "STFT" -> [par("hop_length", "$quarter", ["3", "8"]), par("window", "hann", ["hamming", "blackman"])],
    "BSSSeparator" -> [par("n_iter", "20", ["1", "2", "0"]), par("hop_length", "$quarter", ["4", "8"]), par("window", "hann", ["hamming"]), par("n_taps", "0", ["1"]),
      par("n_delay", "0", ["1"]), par("n_src", "$C", ["1"]), par("algo", "tiss", ["five"]), par("source_model", "$laplace", ["$gauss", "$soft"]), par("proj_back_mic", "0", ["1"]),
      par("use_dmc", "False", ["True"]), par("n_power_iter", "None", ["2"]), par("eps", "1e-5", ["1e-3", "0.0"])],
    "LaplaceModel" -> [par("eps", "1e-5", ["1e-2", "1", "0.0"])],
    "GaussModel" -> [par("eps", "1e-5", ["1e-2", "1", "0.0"])],
    "NMFModel" -> [par("n_basis", "2", ["1", "3"]), par("eps", "1e-5", ["1e-2", "1", "0.0"])],
    "GLUMask" -> [par("pool_size", "2", ["1", "3"]), par("kernel_size", "3", ["1"]), par("dropout_p", "0.5", ["0.1", "0.0"]), par("mag_spec", "True", ["False"]),
      par("log_spec", "True", ["False"]), par("n_sublayers", "1", ["2"])],
    "BLSTMMask" -> [par("n_hidden", "256", ["3", "4"]), par("dropout_p", "0.5", ["0.1", "0.0"]), par("mag_spec", "True", ["False"]), par("log_spec", "False", ["True"])],
    "MaskMVDRSupport" -> [par("n_src", "2", ["1", "3"]), par("n_masks", "3", ["2"]), par("n_hidden", "600", ["3", "4"]), par("dropout_p", "0.5", ["0.1", "0.0"]), par("n_layers", "3", ["1", "2"]), par("eps", "1e-3", ["1e-1", "0.0"])],
    "SimpleModel" -> [par("n_freq", "257", ["129"]), par("n_mels", "64", ["20"]), par("n_hidden", "$mels", ["5"]), par("eps", "1e-6", ["1e-2"])],
    "minimum_distortion" -> [par("p", "2.0", ["1.0", "0.5"]), par("q", "$p", ["2.0"]), par("rtol", "1e-2", ["0.3", "1e-8", "0.0"]), par("max_iter", "100", ["1", "3"])],
    "select_most_energetic" -> [par("dim", "-2", ["-3"]), par("dim_reduc", "-1", ["-4", "0"])],
    "fftconvolve" -> [par("mode", "full", ["same", "valid"]), par("dim", "-1", ["-2", "0"])],
    "solve_loaded" -> [par("load", "1e-6", ["1e-2", "0.0"])],
    "solve_loaded_general" -> [par("load", "1e-5", ["1e-2", "0.0"]), par("eps", "1e-5", ["1e-2", "1", "0.0"])],
    "inv_loaded" -> [par("load", "1e-6", ["1e-2", "0.0"])],
    "inv_2x2" -> [par("eps", "1e-6", ["1e-2", "1", "0.0"])],
    "divide" -> [par("eps", "1e-7", ["1e-2", "1", "0.0"])],
    "hermite" -> [par("dim1", "-2", ["0"]), par("dim2", "-1", ["1"])],
    "instantiate" -> [par("args", "()", ["(3,)"]), par("kwargs", "{}", ["{'eps': 1e-2}"])],
    "separate" -> [par("--mic", "2", ["3"]), par("--src", "2", ["1"]), par("--device", "cpu", []), par("--nfft", "2048", ["256"]), par("--n_iter", "20", ["3"]), par("--taps", "0", ["2"]),
      par("--delay", "0", ["1"]), par("--ref", "0", ["1"]), par("--model-type", "nn", ["laplace", "nmf"]),
      par("--model-path", "https://raw.githubusercontent.com/fakufaku/torchiva/master/trained_models/tiss", ["/tmp/x"]), par("--n-basis", "2", ["3"])])
  import defaults(PARS = P, COMPONENTS = P.keys(), MAXUSES = 2).*
}
