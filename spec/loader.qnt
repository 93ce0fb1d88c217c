// Pre-trained separators in folders: a weights file and a configuration file.
// Loading merges the configuration with the arguments of the call.
module loader {
  type Cfg = str -> int
  // a folder may lack either file; the weights may belong to another architecture
  type Folder = { cfg: Cfg, weights: int, hasCfg: bool, hasWeights: bool, fits: bool }
  type Loaded = { folder: int, params: Cfg, weights: int, args: Cfg }

  pure val PARAMS = Set("n_iter", "hop_length", "n_taps", "n_delay", "n_src", "algo", "proj_back_mic", "use_dmc", "eps", "window",
    "n_power_iter", "source_model")
  pure val FOLDERS = Set(0, 1, 2)

  var folders: int -> Folder
  var objects: List[Loaded]                // separators in memory
  var asked: { how: str, folder: int, args: Cfg }
  var result: str                          // "none", "loaded", "refused"
  var steps: int

  // -1: not in the file
  action init = {
    nondet c0 = PARAMS.setOfMaps((-1).to(2)).oneOf()
    nondet c1 = PARAMS.setOfMaps((-1).to(2)).oneOf()
    nondet c2 = PARAMS.setOfMaps((-1).to(2)).oneOf()
    all {
      folders' = Map(
        0 -> { cfg: c0, weights: 0, hasCfg: true, hasWeights: true, fits: true },
        1 -> { cfg: c1, weights: 1, hasCfg: true, hasWeights: true, fits: true },
        2 -> { cfg: c2, weights: 2, hasCfg: true, hasWeights: true, fits: true }),
      objects' = [], asked' = { how: "none", folder: 0, args: Map() }, result' = "none", steps' = 0,
    }
  }

  // arguments of the call win over the file
  pure def merged(c: Cfg, a: Cfg): Cfg = PARAMS.mapBy(p => if (a.get(p) != -1) a.get(p) else c.get(p))

  action load = all {
    steps < 6,
    nondet f = FOLDERS.oneOf()
    nondet a = PARAMS.setOfMaps((-1).to(2)).oneOf()
    nondet some = PARAMS.powerset().oneOf()
    nondet h = 0.to(9).oneOf()
    val how = ["folder", "folder", "folder", "folder", "slash", "files", "files", "files", "nowhere", "notFolder"][h]
    val args = PARAMS.mapBy(p => if (some.contains(p)) a.get(p) else -1)
    val fo = folders.get(f)
    val ok = fo.hasCfg and fo.hasWeights and fo.fits and how != "nowhere" and how != "notFolder"
    all {
      asked' = { how: how, folder: f, args: args },
      result' = if (ok) "loaded" else "refused",
      objects' = if (ok) objects.append({ folder: f, params: merged(fo.cfg, args), weights: fo.weights, args: args }) else objects,
      folders' = folders, steps' = steps + 1,
    },
  }

  action other = {
    nondet f = FOLDERS.oneOf()
    nondet k = 0.to(8).oneOf()
    nondet c = PARAMS.setOfMaps((-1).to(2)).oneOf()
    val fo = folders.get(f)
    all {
      asked' = { how: ["removeWeights", "removeConfig", "misfit", "restore", "restore", "restore", "save", "save", "train"][k], folder: f, args: Map() },
      result' = "none",
      folders' = folders.set(f,
        if (k == 0) fo.with("hasWeights", false)
        else if (k == 1) fo.with("hasCfg", false)
        else if (k == 2) { ...fo, hasWeights: true, fits: false }
        else if (k < 6) { ...fo, hasWeights: true, hasCfg: true, fits: true }
        else if (k < 8) { cfg: c, weights: fo.weights + 3, hasCfg: true, hasWeights: true, fits: true }
        else fo),
      // training goes on with the first separator in memory: no other one, no file changes
      objects' = if (k == 8 and objects.length() > 0) objects.replaceAt(0, { ...objects[0], weights: objects[0].weights + 1000 }) else objects,
      steps' = steps,
    }
  }
  action step = { nondet b = Set(true, false).oneOf() if (b) load else other }

  // ------------------------------------------------------------------ properties
  val onlyComplete = result == "loaded" implies
    (folders.get(asked.folder).hasCfg and folders.get(asked.folder).hasWeights and folders.get(asked.folder).fits)
  val argumentsWin = objects.indices().forall(i => PARAMS.forall(p =>
    objects[i].args.get(p) != -1 implies objects[i].params.get(p) == objects[i].args.get(p)))
}
