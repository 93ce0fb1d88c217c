// The separation command: which files a run reads and writes, with which
// parameters every output is computed, and what it refuses to do.
module cli {
  type Path = List[str]
  // gen 0: a recording; otherwise the run that wrote the file
  type File = { chans: int, len: int, rate: int, gen: int }
  // a separated file: from which file, with how many of its channels, giving how many sources
  type Out = { from: Path, used: int, sources: int }
  type Args = {
    input: Path, output: Path, single: bool, asFile: bool, algo: str, model: str, mic: int, src: int, nfft: int, hop: int,
    win: str, iters: int, taps: int, delay: int, ref: int, eps: int, meps: int, basis: int, quiet: bool,
  }

  var tree: Path -> File
  var args: Args
  var eff: { algo: str, src: int }         // what algorithm and number of sources stand for
  var written: Path -> Out
  var refused: bool
  var runs: int
  var asked: bool
  var before: Path -> File                 // files when the last run began

  pure val noArgs: Args = {
    input: [], output: [], single: false, asFile: false, algo: "none", model: "laplace", mic: 2, src: 2, nfft: 64, hop: 0,
    win: "none", iters: 1, taps: 0, delay: 0, ref: 0, eps: 0, meps: 0, basis: 2, quiet: false,
  }

  pure def under(p: Path, dir: Path): bool =
    p.length() > dir.length() and p.slice(0, dir.length()) == dir
  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def dirOf(p: Path): Path = p.slice(0, p.length() - 1)
  pure def leaf(p: Path): str = p[p.length() - 1]

  pure val PLACES: Set[Path] = Set(
    ["in", "a.wav"], ["in", "b.wav"], ["in", "sub", "a.wav"], ["in", "sub", "c.wav"], ["in", "sub", "deep", "a.wav"],
    ["in", "sub", "deep", "er", "still", "c.wav"], ["in", "other", "b.wav"])

  action init = {
    nondet some = PLACES.powerset().exclude(Set(Set())).oneOf()
    nondet chans = PLACES.setOfMaps(2.to(4)).oneOf()
    nondet lens = PLACES.setOfMaps(Set(300, 401, 512, 777, 1500)).oneOf()
    nondet rates = PLACES.setOfMaps(Set(8000, 16000, 44100)).oneOf()
    all {
      tree' = some.mapBy(p => { chans: chans.get(p), len: lens.get(p), rate: rates.get(p), gen: 0 }),
      before' = Map(), asked' = false, args' = noArgs, eff' = { algo: "none", src: 0 }, written' = Map(), refused' = false, runs' = 0,
    }
  }

  // files a run over a folder separates: not the ones of its own output folder
  pure def sources(t: Path -> File, a: Args): Set[Path] =
    if (a.single) Set(a.input)
    else t.keys().filter(p => under(p, a.input) and not(under(p, a.output)))

  pure def target(a: Args, p: Path): Path =
    if (not(a.single)) a.output.concat(p.slice(a.input.length(), p.length()))
    else if (a.asFile) a.output
    else a.output.append(leaf(p))

  pure def effAlgo(a: Args): str = if (a.algo == "none") "tiss" else a.algo
  // the masks of the beamforming model are made for two sources
  pure def effSrc(a: Args): int =
    if (a.algo == "five") 1 else if (Set("mvdr", "mwf", "gev").contains(a.algo)) min2(a.src, 2) else a.src

  pure def wrong(t: Path -> File, a: Args): bool = or {
    a.src > a.mic,
    a.algo == "ip2" and a.mic != 2,
    Set("mvdr", "mwf", "gev").contains(a.algo) and a.model != "nn",
    not(a.single) and a.input == a.output,
    a.single and target(a, a.input) == a.input,
    a.single and not(t.keys().contains(a.input)),        // no such recording, or not a recording
    not(a.single) and t.keys().contains(a.output),       // a recording in the place of the output folder
  }

  // every recording has the channels that are asked for
  pure def feasible(t: Path -> File, a: Args): bool = (a.single and not(t.keys().contains(a.input))) or sources(t, a).forall(p =>
    val used = min2(t.get(p).chans, a.mic)
    and { used >= effSrc(a), used >= 2, a.ref < used,
          not(a.algo == "five" and a.model == "nn") })   // extraction leaves out a frequency the model has

  // the command line is read; where the recordings have the channels that are asked for, it is carried out or refused
  action execute = all {
    asked,
    feasible(tree, args),
    val s = sources(tree, args)
    val no = wrong(tree, args)
    val res = if (no) Map() else s.map(p => (target(args, p), { from: p, used: min2(tree.get(p).chans, args.mic), sources: effSrc(args) })).setToMap()
    all {
      eff' = { algo: effAlgo(args), src: effSrc(args) },
      refused' = no, written' = res, before' = tree,
      tree' = tree.keys().union(res.keys()).mapBy(p =>
        if (res.keys().contains(p)) { chans: res.get(p).sources, len: tree.get(res.get(p).from).len, rate: tree.get(res.get(p).from).rate, gen: runs + 1 } else tree.get(p)),
      runs' = runs + 1, asked' = false, args' = args,
    },
  }
  action drop = all {
    asked, not(feasible(tree, args)),
    asked' = false, args' = args, eff' = eff, refused' = refused, written' = Map(), tree' = tree, before' = tree, runs' = runs,
  }

  action command = all {
    runs < 3, not(asked),
    nondet mo = 0.to(15).oneOf()
    nondet outdir = Set(["out"], ["out", "new"], ["in", "out"], ["in", "sub", "res"], ["in"]).oneOf()
    nondet outname = Set("x.wav", "a.wav", "b.wav").oneOf()
    nondet pick = tree.keys().oneOf()
    nondet al = 0.to(12).oneOf()
    nondet luck = 0.to(9).oneOf()
    nondet mc = 2.to(4).oneOf()
    nondet s3 = 0.to(11).oneOf()
    nondet nfft = Set(64, 128).oneOf()
    nondet hop = Set(0, 16, 32).oneOf()
    nondet win = Set("none", "hann", "hamming").oneOf()
    nondet iters = 1.to(4).oneOf()
    nondet taps = 0.to(2).oneOf()
    nondet delay = 0.to(2).oneOf()
    nondet ref = 0.to(2).oneOf()
    nondet eps = 0.to(2).oneOf()
    nondet meps = 0.to(2).oneOf()
    nondet basis = 1.to(3).oneOf()
    nondet quiet = Set(true, false).oneOf()
    nondet m = 0.to(3).oneOf()
    nondet strange = 0.to(15).oneOf()
    val algo = ["none", "none", "tiss", "tiss", "tiss", "ip2", "ip2", "five", "five", "five", "mvdr", "mwf", "gev"][al]
    val model = if (luck > 1 and Set("mvdr", "mwf", "gev").contains(algo)) "nn" else ["laplace", "gauss", "nmf", "nn"][m]
    val mic = if (algo == "ip2" and luck > 0) 2 else mc
    val src = if (luck == 0) 1 + s3 % 3 else 1 + s3 % mic
    val mode = if (mo < 8) mo else [0, 1, 1, 2, 4, 4, 5, 5][mo - 8]
    val single = strange < 2 or mode >= 4
    // a file next to others, a folder, or the input itself by another way
    val input = if (strange == 0) dirOf(pick).append("missing.wav") else if (strange == 1) ["in", "notes.txt"] else if (single) pick else if (mode == 0) ["in", "sub"] else ["in"]
    val output = if (single and strange < 2) outdir.append(outname) else if (not(single) and strange == 2) pick else if (not(single)) (if (mode == 3) input else if (under(input, outdir)) ["out"] else outdir)
      else if (mode == 4) outdir.append(outname) else if (mode == 5) outdir else if (mode == 6) dirOf(pick) else pick
    val asFile = single and (strange < 2 or mode == 4 or mode == 7)
    // a folder above its own input as output is left out
    all { args' = ({
      input: input, output: output, single: single, asFile: asFile, algo: algo, model: model, mic: mic, src: src, nfft: nfft, hop: hop,
      win: win, iters: iters, taps: taps, delay: delay, ref: ref, eps: eps, meps: meps, basis: basis, quiet: quiet,
    }),
    asked' = true, eff' = eff, refused' = false, written' = Map(), tree' = tree, before' = tree, runs' = runs },
  }
  action step = any { command, execute, drop }

  // ------------------------------------------------------------------ properties
  // a run reads nothing that it writes
  val inputsKept = written.keys().forall(p => written.keys().forall(q => written.get(q).from != p))
  // nothing is lost: as many outputs as inputs
  val nothingLost = not(refused) and runs > 0 implies written.keys().map(p => written.get(p).from).size() == written.keys().size()
  val sameLength = written.keys().forall(p => tree.get(p).len == before.get(written.get(p).from).len)
  val sameRate = written.keys().forall(p => tree.get(p).rate == before.get(written.get(p).from).rate)
  val nothingOnRefusal = refused implies written.keys() == Set()
}
