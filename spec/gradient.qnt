// Training: forward and backward passes in any order, with or without
// recomputation in the backward pass, gradient accumulation, parameter updates.
module gradient {
  const COMPONENTS: Set[str]
  const SETTINGS: Set[int]
  const BARE: Set[str]                     // components without learnable parameters
  const INPUTS: Set[int]
  const MAXFWD: int

  type Fwd = { id: int, input: int, version: int, dmc: bool, tracked: bool }
  var comp: str
  var setting: int
  var wantInput: bool                      // the inputs take part in the differentiation
  var trained: Set[int]                    // the learnable parameters that are not frozen
  var version: int                         // of the learnable parameters
  var fwds: List[Fwd]
  var pending: Set[int]                    // forward passes that can still be differentiated
  var acc: int -> List[int]                // input -> forward passes whose gradient it has accumulated
  var accPar: List[int]                    // the same for the parameters that are trained
  var last: str

  action init = {
    nondet c = COMPONENTS.oneOf()
    nondet s = SETTINGS.oneOf()
    nondet w = Set(true, false).oneOf()
    nondet free = Set(0, 1).powerset().oneOf()
    all { comp' = c, setting' = s, wantInput' = (w or BARE.contains(c) or free == Set()), trained' = free, version' = 0, fwds' = [], pending' = Set(), acc' = INPUTS.mapBy(i => []), accPar' = [], last' = "init" }
  }
  action forward = all {
    fwds.length() < MAXFWD,
    nondet i = INPUTS.oneOf()
    nondet d = Set(true, false).oneOf()
    nondet t = 0.to(4).oneOf()
    all {
      fwds' = fwds.append({ id: fwds.length(), input: i, version: version, dmc: d, tracked: t > 0 }),
      pending' = if (t > 0) pending.union(Set(fwds.length())) else pending,
    },
    comp' = comp, setting' = setting, wantInput' = wantInput, trained' = trained, version' = version, acc' = acc, accPar' = accPar, last' = "forward",
  }
  action backward = all {
    pending != Set(),
    nondet f = pending.oneOf()
    all {
      pending' = pending.exclude(Set(f)),
      acc' = if (not(wantInput)) acc else acc.set(fwds[f].input, acc.get(fwds[f].input).append(f)),
      accPar' = accPar.append(f),
    },
    comp' = comp, setting' = setting, wantInput' = wantInput, trained' = trained, version' = version, fwds' = fwds, last' = "backward",
  }
  action clear = all {
    accPar != [],
    comp' = comp, setting' = setting, wantInput' = wantInput, trained' = trained, version' = version, fwds' = fwds, pending' = pending, acc' = INPUTS.mapBy(i => []), accPar' = [], last' = "clear",
  }
  // the parameters change only between passes
  action update = all {
    pending == Set(), accPar != [],
    version' = version + 1,
    comp' = comp, setting' = setting, wantInput' = wantInput, trained' = trained, fwds' = fwds, pending' = pending, acc' = acc, accPar' = accPar, last' = "update",
  }
  action idle = all {
    fwds.length() == MAXFWD, pending == Set(),
    comp' = comp, setting' = setting, wantInput' = wantInput, trained' = trained, version' = version, fwds' = fwds, pending' = pending, acc' = acc, accPar' = accPar, last' = "idle",
  }
  action step = any { forward, backward, clear, update, idle }

  // ------------------------------------------------------------------ properties
  // every accumulated contribution comes from a tracked pass that was differentiated exactly once
  val once = accPar.foldl((true, Set()), (s, f) => (s._1 and not(s._2.contains(f)), s._2.union(Set(f))))._1
  val trackedOnly = accPar.foldl(true, (ok, f) => ok and fwds[f].tracked and not(pending.contains(f)))
  val consistent = INPUTS.forall(i => acc.get(i).foldl(true, (ok, f) => ok and fwds[f].input == i))
}

module gradientSmall {
  import gradient(COMPONENTS = Set("any"), BARE = Set(), SETTINGS = Set(0), INPUTS = 0.to(1), MAXFWD = 3).*
  // the exhaustive exploration stops after two updates
  action bounded = all { version < 2, step }
}
module gradientFull {
  import gradient(
    COMPONENTS = Set("tiss", "tissover", "tisstaps", "ip", "ip2", "five", "wpe", "mvdr", "mwf", "gev", "sep", "stft", "istft", "laplace", "gauss", "l2", "phase", "pb"),
    BARE = Set("stft", "istft", "laplace", "gauss", "l2", "phase", "pb"), SETTINGS = 0.to(5), INPUTS = 0.to(1), MAXFWD = 3).*
}
