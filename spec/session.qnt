// Life of separator objects: construction parameters, calls with overrides,
// calls that fail half way, and source models with internal state shared by
// several objects.  Between calls the caller may overwrite inputs and results in place.  What a
// call computes depends on its effective parameters and on what its input holds
// at that time only.
module session {
  const COMPONENTS: Set[str]
  const PARAMS: str -> Set[str]            // parameters of a component
  const NULLABLE: Set[str]                 // parameters whose value 0 is "None": as an argument it means not given
  const VALUES: Set[int]                   // indices of parameter values
  const INPUTS: Set[int]
  const MAXCALLS: int
  const BARE: Set[str]                     // components whose calls take nothing but the input
  const SAFE: Set[str]                     // of these, the ones without a model, which refuse no input
  const MAXVER: int                        // how often an input is overwritten

  type Params = str -> int
  // over: -1 stands for a parameter that is not given in the call
  type Call = { obj: int, over: Params, eff: Params, input: int, ver: int, wiped: bool, fault: str, failed: bool }

  var comp: str
  var attrs: int -> Params                 // parameters of object 0 and object 1
  var ctor: int -> Params                  // what they were constructed with
  var cur: Call
  var owner: int                           // call whose data the models' internal state comes from, 0: none
  var done: List[Call]
  var vers: int -> int                     // how often the content of every input was replaced
  var wipe: bool                           // the results so far were overwritten since the last call
  var phase: str

  pure val noCall: Call = { obj: 0, over: Map(), eff: Map(), input: 0, ver: 0, wiped: false, fault: "none", failed: false }

  action init = {
    nondet c = COMPONENTS.oneOf()
    nondet p0 = PARAMS.get(c).setOfMaps(VALUES).oneOf()
    nondet p1 = PARAMS.get(c).setOfMaps(VALUES).oneOf()
    all {
      comp' = c, ctor' = Map(0 -> p0, 1 -> p1), attrs' = Map(0 -> p0, 1 -> p1),
      cur' = noCall, owner' = 0, done' = [], vers' = INPUTS.mapBy(k => 0), wipe' = false, phase' = "idle",
    }
  }

  // the caller uses the memory of an input or of the results for something else
  action rewrite = all {
    phase == "idle", done.length() > 0, done.length() < MAXCALLS,
    INPUTS.exists(k => vers.get(k) < MAXVER),
    nondet k = INPUTS.filter(k => vers.get(k) < MAXVER).oneOf()
    nondet w = Set(true, false).oneOf()
    all { vers' = if (w) vers else vers.set(k, vers.get(k) + 1), wipe' = (wipe or w) },
    comp' = comp, attrs' = attrs, ctor' = ctor, cur' = cur, owner' = owner, done' = done, phase' = phase,
  }

  // a call sees its own arguments first, then the parameters of its object
  action begin = all {
    phase == "idle",
    done.length() < MAXCALLS,
    nondet o = Set(0, 1).oneOf()
    nondet given = PARAMS.get(comp).powerset().oneOf()
    nondet vals = PARAMS.get(comp).setOfMaps(VALUES).oneOf()
    nondet input = INPUTS.oneOf()
    nondet luck = 0.to(7).oneOf()
    val fault = if (SAFE.contains(comp)) "none" else if (luck == 6) "model" else if (luck == 7) "sources" else "none"
    val over = PARAMS.get(comp).mapBy(p =>
      if (not(BARE.contains(comp)) and given.contains(p) and not(NULLABLE.contains(p) and vals.get(p) == 0)) vals.get(p) else -1)
    all {
    cur' = {
      obj: o, over: over, input: input, ver: vers.get(input), wiped: wipe, fault: fault, failed: false,
      eff: PARAMS.get(comp).mapBy(p => if (over.get(p) == -1) attrs.get(o).get(p) else over.get(p)),
    },
    phase' = if (fault == "sources") "rejected" else "reset",
    comp' = comp, attrs' = attrs, ctor' = ctor, owner' = owner, done' = done, vers' = vers, wipe' = false,
    },
  }

  // refused before anything happens: more sources than channels
  action reject = all {
    phase == "rejected",
    done' = done.append(cur.with("failed", true)),
    phase' = "idle",
    comp' = comp, attrs' = attrs, ctor' = ctor, cur' = cur, owner' = owner,
    vers' = vers, wipe' = wipe,
  }

  action resetModel = all {
    phase == "reset",
    owner' = 0,
    phase' = "iterate",
    comp' = comp, attrs' = attrs, ctor' = ctor, cur' = cur, done' = done,
    vers' = vers, wipe' = wipe,
  }

  // the first evaluation initialises the model's internal state from this call's signal
  action iterate = all {
    phase == "iterate",
    owner' = if (owner == 0) done.length() + 1 else owner,
    phase' = if (cur.fault == "model") "abort" else "finish",
    comp' = comp, attrs' = attrs, ctor' = ctor, cur' = cur, done' = done,
    vers' = vers, wipe' = wipe,
  }

  // the model raises: the call ends, its leftovers stay behind
  action abort = all {
    phase == "abort",
    done' = done.append(cur.with("failed", true)),
    phase' = "idle",
    comp' = comp, attrs' = attrs, ctor' = ctor, cur' = cur, owner' = owner,
    vers' = vers, wipe' = wipe,
  }

  action finish = all {
    phase == "finish",
    done' = done.append(cur),
    phase' = "idle",
    comp' = comp, attrs' = attrs, ctor' = ctor, cur' = cur, owner' = owner,
    vers' = vers, wipe' = wipe,
  }

  action step = any { begin, rewrite, reject, resetModel, iterate, abort, finish }

  // ------------------------------------------------------------------ properties
  val attributesKept = attrs == ctor
  // a running call never works with another call's model state
  val ownState = (phase == "finish") implies owner == done.length() + 1
  // a call works with what its input holds when it begins
  val current = (phase != "idle") implies cur.ver == vers.get(cur.input)
  val effective = done.indices().forall(i =>
    PARAMS.get(comp).forall(p =>
      done[i].eff.get(p) == (if (done[i].over.get(p) == -1) ctor.get(done[i].obj).get(p) else done[i].over.get(p))))
}

// small enough to explore completely
module sessionSmall {
  import session(COMPONENTS = Set("a"), PARAMS = Map("a" -> Set("p", "q")), NULLABLE = Set("q"), VALUES = Set(0, 1), INPUTS = Set(0), MAXCALLS = 2, BARE = Set(), SAFE = Set(), MAXVER = 1).*
}

module sessionCalls {
  import session(
    COMPONENTS = Set("tiss", "ip", "ip2", "five", "wpe", "mvdr", "mwf", "gev"),
    PARAMS = Map(
      "tiss" -> Set("n_iter", "n_taps", "n_delay", "n_src", "model", "proj_back_mic", "use_dmc", "eps"),
      "ip" -> Set("n_iter", "n_src", "model", "proj_back_mic", "eps"),
      "ip2" -> Set("n_iter", "model", "proj_back_mic", "eps"),
      "five" -> Set("n_iter", "model", "proj_back_mic", "eps", "n_power_iter"),
      "wpe" -> Set("n_iter", "n_delay", "n_taps", "weights", "eps"),
      "mvdr" -> Set("mask_model", "ref_mic", "eps", "mvdr_type", "n_power_iter"),
      "mwf" -> Set("mask_model", "ref_mic", "eps", "time_invariant"),
      "gev" -> Set("mask_model", "ref_mic", "eps")),
    NULLABLE = Set("n_src", "proj_back_mic", "n_power_iter", "weights"),
    VALUES = 0.to(2), INPUTS = 0.to(3), MAXCALLS = 5, BARE = Set(), SAFE = Set(), MAXVER = 0).*
}

module sessionFull {
  import session(
    COMPONENTS = Set("tiss", "ip", "ip2", "five", "wpe", "mvdr", "mwf", "gev", "sep", "stft"),
    PARAMS = Map(
      "tiss" -> Set("n_iter", "n_taps", "n_delay", "n_src", "model", "proj_back_mic", "use_dmc", "eps"),
      "ip" -> Set("n_iter", "n_src", "model", "proj_back_mic", "eps"),
      "ip2" -> Set("n_iter", "model", "proj_back_mic", "eps"),
      "five" -> Set("n_iter", "model", "proj_back_mic", "eps", "n_power_iter"),
      "wpe" -> Set("n_iter", "n_delay", "n_taps", "weights", "eps"),
      "mvdr" -> Set("mask_model", "ref_mic", "eps", "mvdr_type", "n_power_iter"),
      "mwf" -> Set("mask_model", "ref_mic", "eps", "time_invariant"),
      "gev" -> Set("mask_model", "ref_mic", "eps"),
      "sep" -> Set("algo", "n_iter", "hop", "n_taps", "n_delay", "n_src", "model", "proj_back_mic", "use_dmc", "eps"),
      "stft" -> Set("hop", "window")),
    NULLABLE = Set("n_src", "proj_back_mic", "n_power_iter", "weights"),
    VALUES = 0.to(2), INPUTS = 0.to(3), MAXCALLS = 5, BARE = Set("sep", "stft"), SAFE = Set("stft"), MAXVER = 2).*
}
