"""The separation command replayed in a scratch folder: what it writes, from what, with which parameters."""
import contextlib
import hashlib
import io
import os
import random
import shutil
import tempfile
from pathlib import Path

import torch
import torchaudio
import yaml

from core import SEED, TIER, main_of, rel_err, run_quint
import bss
from bss import tv

import torchiva.separate as cmd

EPS = {0: None, 1: 1e-3, 2: 0.05}


def nn_models(root):
    """Folders with a pre-trained mask model, one for each frame size and kind."""
    out = {}
    for nfft in (64, 128):
        for kind in ("iva", "bf"):
            torch.manual_seed(nfft + len(kind))
            d = root / f"{kind}{nfft}"
            d.mkdir(parents=True)
            nf = nfft // 2 + 1
            if kind == "iva":
                sm = dict(name="torchiva.models.GLUMask", kwargs=dict(n_freq=nf, n_bottleneck=8, dropout_p=0.5, n_sublayers=1, pool_size=2))
            else:
                sm = dict(name="torchiva.models.MaskMVDRSupport", kwargs=dict(n_src=2, n_masks=2, n_input=nf, n_hidden=6, n_layers=2))
            cfg = dict(n_fft=nfft, hop_length=nfft // 4, n_iter=7, n_taps=1, n_delay=1, algo="tiss" if kind == "iva" else "mvdr", source_model=sm)
            torch.save(tv.nn.BSSSeparator(**cfg).state_dict(), d / "model_weights.ckpt")
            (d / "model_config.yaml").write_text(yaml.safe_dump(cfg))
            out[kind, nfft] = d
    return out


# files and folders may have any name
NAMES = [{}, {"a": "a b", "sub": "s u b", "c": "c.1"}, {"a": "[a]", "b": "b.c", "sub": "sub.d", "deep": "deep.wav"},
         {"a": "\u00e4", "c": "a.wav", "other": "in"}, {"b": "A", "x": "x.y"}]


def place(path, names):
    """The path of the specification with the names of this behaviour."""
    return tuple(names.get(p[:-4], p[:-4]) + ".wav" if p.endswith(".wav") else names.get(p, p) if 0 < k else p for k, p in enumerate(path))


def argv(a, root, models, rng, names):
    inp, outp = root.joinpath(*place(a["input"], names)), root.joinpath(*place(a["output"], names))
    how = rng.random()
    if how < 0.25:
        # relative to the current folder
        v = [os.path.relpath(inp), os.path.relpath(outp)]
    elif how < 0.4:
        # by way of a link
        v = [str(root / "link" / inp.relative_to(root)), str(outp)]
    elif how < 0.5:
        v = [str(inp), str(root / "link" / ".." / root.name / outp.relative_to(root))]
    else:
        v = [str(inp), str(outp)]
    if a["input"] == a["output"] and rng.random() < 0.5:
        v[1] = str(inp.parent / "." / ".." / inp.parent.name / inp.name)

    def opt(names, val):
        v.extend([rng.choice(names), str(val)])
    if a["algo"] != "none":
        opt(["--algo", "-a"], a["algo"])
    if a["mic"] != 2 or rng.random() < 0.5:
        opt(["--mic", "-m"], a["mic"])
    if a["src"] != 2 or rng.random() < 0.5:
        opt(["--src", "-s"], a["src"])
    opt(["--nfft"], a["nfft"])
    if a["hop"]:
        opt(["--hop"], a["hop"])
    if a["win"] != "none":
        opt(["--win"], a["win"])
    opt(["--n_iter", "-n"], a["iters"])
    if a["taps"] or rng.random() < 0.3:
        opt(["--taps", "-t"], a["taps"])
    if a["delay"] or rng.random() < 0.3:
        opt(["--delay", "-d"], a["delay"])
    if a["ref"] or rng.random() < 0.3:
        opt(["--ref"], a["ref"])
    if EPS[a["eps"]] is not None:
        opt(["--eps"], EPS[a["eps"]])
    if EPS[a["meps"]] is not None:
        opt(["--model-eps"], EPS[a["meps"]])
    if a["basis"] != 2:
        opt(["--n-basis"], a["basis"])
    if a["model"] != "nn" or rng.random() < 0.5:
        opt(["--model-type"], a["model"])
    kind = "bf" if a["algo"] in ("mvdr", "mwf", "gev") else "iva"
    opt(["--model-path"], models[kind, a["nfft"]])
    if rng.random() < 0.3:
        opt(["--device"], "cpu")
    if a["quiet"]:
        v.append(rng.choice(["-q", "--quiet"]))
    return v


def reference(a, eff, models):
    if a["model"] == "nn":
        kind = "bf" if eff["algo"] in ("mvdr", "mwf", "gev") else "iva"
        return tv.load_separator(str(models[kind, a["nfft"]]), n_iter=a["iters"], n_src=eff["src"], proj_back_mic=a["ref"], use_dmc=False,
                                 algo=eff["algo"]).eval()
    kw = {} if EPS[a["meps"]] is None else {"eps": EPS[a["meps"]]}
    m = {"laplace": lambda: tv.models.LaplaceModel(**kw), "gauss": lambda: tv.models.GaussModel(**kw),
         "nmf": lambda: tv.models.NMFModel(n_basis=a["basis"], **kw)}[a["model"]]()
    return tv.nn.BSSSeparator(n_fft=a["nfft"], n_iter=a["iters"], hop_length=a["hop"] or None, window=None if a["win"] == "none" else a["win"],
                              n_taps=a["taps"], n_delay=a["delay"], n_src=eff["src"], algo=eff["algo"], source_model=m,
                              proj_back_mic=a["ref"], use_dmc=False, eps=EPS[a["eps"]])


def listing(root):
    return {tuple(p.relative_to(root).parts): hashlib.sha256(p.read_bytes()).hexdigest() for p in root.rglob("*") if p.is_file()}


def replay(check, b, i, models, base):
    rng = random.Random(SEED * 1000003 + i)
    root = Path(tempfile.mkdtemp(dir=base))
    check.traces += 1
    names = rng.choice(NAMES)
    cwd = os.getcwd()
    try:
        os.chdir(root)
        g = torch.Generator().manual_seed(rng.randrange(2 ** 31))
        for p, f in b[0]["tree"].items():
            path = root.joinpath(*place(p, names))
            path.parent.mkdir(parents=True, exist_ok=True)
            mix = torch.randn(f["chans"], f["chans"], generator=g)
            src = torch.randn(f["chans"], f["len"], generator=g) * torch.rand(1, f["len"], generator=g)
            level = rng.choice([0.1, 0.1, 0.1, 0.003, 1.0])
            how = {} if level != 0.1 or rng.random() < 0.5 else dict(encoding="PCM_S", bits_per_sample=16)
            torchaudio.save(str(path), level * mix @ src, f["rate"], **how)
        root.joinpath("in").mkdir(exist_ok=True)
        root.joinpath("in", "notes.txt").write_text("not a recording")
        root.joinpath("link").symlink_to(root, target_is_directory=True)
        for st in b.states:
            if st.get("action") != "execute":
                continue
            a = st["args"]
            out = root.joinpath(*place(a["output"], names))
            # the folder an output file is to be placed in exists
            (out.parent if a["single"] and a["asFile"] else out if a["single"] and not out.is_file() else root).mkdir(parents=True, exist_ok=True)
            if not a["single"]:
                root.joinpath(*place(a["input"], names)).mkdir(parents=True, exist_ok=True)
            v = argv(a, root, models, rng, names)
            before = listing(root)
            old = {k: torchaudio.load(str(root.joinpath(*k))) for k in before if k[-1].endswith(".wav")}
            seed = rng.randrange(2 ** 31)
            torch.manual_seed(seed)
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                try:
                    args = cmd.get_parser().parse_args(v)
                    cmd.main(args)
                    err = None
                except (Exception, SystemExit) as e:  # noqa: BLE001
                    err = f"{type(e).__name__}: {e}"
            after = listing(root)
            d = dict(command=v, behaviour=i)
            check.comparisons += 1
            check.count("refused" if st["refused"] else f"run {a['model']} {st['eff']['algo']}")
            if st["refused"]:
                if err is None:
                    check.violation("a command that makes no sense is carried out", d, b)
                    return
                if after != before:
                    check.violation("a refused command changed files", d, b)
                    return
                continue
            if err:
                # a recording that the library cannot separate either decides nothing
                for w in st["written"].values():
                    with torch.no_grad():
                        _, e2 = bss.attempt(lambda: reference(a, st["eff"], models)(old[place(w["from"], names)][0][: w["used"]]))
                    if e2:
                        check.count("the library raises, too")
                        return
                check.violation("raises", dict(d, error=err), b)
                return
            want = {place(k, names) for k in st["written"]}
            changed = {k for k in after if before.get(k) != after[k]}
            if set(before) - set(after) or (set(after) - set(before)) - want or changed - want:
                check.violation("files other than the outputs were changed", dict(d, changed=sorted(map(str, changed - want)), lost=sorted(map(str, set(before) - set(after)))), b)
                return
            if want - set(after):
                check.violation("outputs are missing", dict(d, missing=sorted(map(str, want - set(after)))), b)
                return
            for path, w in st["written"].items():
                got, fs = torchaudio.load(str(root.joinpath(*place(path, names))))
                x, fs0 = old[place(w["from"], names)]
                check.comparisons += 1
                dd = dict(d, output=str(path), shape=list(got.shape))
                if fs != fs0 or got.shape != (w["sources"], x.shape[-1]):
                    check.violation("sampling rate, number of sources or length", dd, b)
                    return
                if a["model"] == "nmf" and len(want) > 1:
                    continue  # the random numbers depend on the order of the files
                torch.manual_seed(seed)
                with torch.no_grad():
                    y, e2 = bss.attempt(lambda: reference(a, st["eff"], models)(x[: w["used"]]))
                    if e2:
                        check.violation("the same separation through the library raises", dict(dd, error=e2), b)
                        return
                    if y.shape[-2] > w["sources"]:
                        pw = y.double().square().sum(-1)
                        order = torch.argsort(pw, descending=True)
                        if y.shape[-2] > 1 and float(pw[order[0]] - pw[order[1]]) < 1e-3 * float(pw[order[0]]):
                            continue
                        y = y[order[: w["sources"]]]
                if not bool(torch.isfinite(y).all()):
                    check.count("not finite")
                    continue
                # the format of the file limits range and resolution
                torchaudio.save(str(base / "want.wav"), y, fs)
                y, _ = torchaudio.load(str(base / "want.wav"))
                e = rel_err(got.double(), y.double(), 1e-6)
                if e > 2e-3:
                    check.violation("an output is not the separation of its input", dict(dd, error=e), b)
                    return
                check.max_err = max(check.max_err, e)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def run(check):
    n = 200 if TIER == "quick" else 1600
    behs = run_quint(check, "cli", n, 14, invariants=["inputsKept", "nothingLost", "sameLength", "nothingOnRefusal", "sameRate"])
    base = Path(check.scratch) / "cli"
    base.mkdir()
    models = nn_models(base / "models")
    os.environ["HOME"] = str(base)
    for i, b in enumerate(behs):
        replay(check, b, i, models, base)
        check.sample({"args": [s["args"] for s in b.states if s.get("action") == "execute"]})


if __name__ == "__main__":
    main_of(run, "C20")
