"""Loading pre-trained separators from folders."""
import copy
import hashlib
import random
import shutil
import tempfile
from pathlib import Path

import torch
import yaml

from core import SEED, TIER, main_of, run_quint
import bss
from bss import tv

VALUES = {"n_iter": [1, 2, 4], "hop_length": [16, 8, 4], "n_taps": [0, 1, 2], "n_delay": [0, 1, 2], "n_src": [1, 2, 2],
          "algo": ["tiss", "ip2", "five"], "window": [None, "hamming", "blackman"], "n_power_iter": [None, 3, 30], "proj_back_mic": [0, 1, None], "use_dmc": [False, True, False], "eps": [1e-5, 1e-3, 0.05]}
NF = 32
F = NF // 2 + 1
SIMPLE, GLU = "torchiva.models.SimpleModel", "torchiva.models.GLUMask"
# descriptions of models that take the same weights: the others leave settings out or have different ones
MODELS = [
    [dict(name=SIMPLE, kwargs=dict(n_freq=F, n_mels=6, n_hidden=5)),
     dict(name=SIMPLE, kwargs=dict(n_freq=F, n_mels=6, n_hidden=5, eps=0.3)),
     dict(name=SIMPLE, args=[F, 6], kwargs=dict(n_hidden=5))],
    [dict(name=GLU, kwargs=dict(n_freq=F, n_bottleneck=8, pool_size=2, dropout_p=0.1, log_spec=False)),
     dict(name=GLU, kwargs=dict(n_freq=F, n_bottleneck=8)),
     dict(name=GLU, kwargs=dict(n_freq=F, n_bottleneck=8, dropout_p=0.5, log_spec=True))],
    [dict(name=SIMPLE, kwargs=dict(n_freq=F, n_mels=4)),
     dict(name=SIMPLE, kwargs=dict(n_freq=F, n_mels=4, n_hidden=4, eps=1.0)),
     dict(name=SIMPLE, kwargs=dict(n_freq=F, n_mels=4, n_hidden=None))],
]


def params(f, c):
    kw = {p: VALUES[p][v] for p, v in c.items() if v != -1 and p != "source_model"}
    if c["source_model"] != -1:
        kw["source_model"] = copy.deepcopy(MODELS[f][c["source_model"]])
    return kw


def config(f, cfg):
    return {"n_fft": NF, "source_model": copy.deepcopy(MODELS[f][0]), **params(f, cfg)}


def weights_of(f, w):
    torch.manual_seed(5000 + 7 * w + f)
    return tv.nn.BSSSeparator(n_fft=NF, source_model=copy.deepcopy(MODELS[f][0])).state_dict()


def write(root, f, fo):
    d = root / f"m{f}"
    d.mkdir(exist_ok=True)
    w, c = d / "model_weights.ckpt", d / "model_config.yaml"
    if fo["hasWeights"]:
        torch.save(weights_of(f if fo["fits"] else (f + 1) % 2 if f < 2 else 0, fo["weights"]), w)
    else:
        w.unlink(missing_ok=True)
    if fo["hasCfg"]:
        c.write_text(yaml.safe_dump(config(f, fo["cfg"])))
    else:
        c.unlink(missing_ok=True)


def listing(root):
    return {str(p.relative_to(root)): hashlib.sha256(p.read_bytes()).hexdigest() for p in sorted(root.rglob("*")) if p.is_file()}


def same_state(a, b):
    return set(a) == set(b) and all(torch.equal(a[k], b[k]) for k in b)


def replay(check, b, i, base):
    rng = random.Random(SEED * 1000003 + i)
    root = Path(tempfile.mkdtemp(dir=base))
    for f, fo in b[0]["folders"].items():
        write(root, f, fo)
    objs = []
    check.traces += 1
    try:
        for k in range(1, len(b)):
            st, prev = b[k], b[k - 1]
            a = st["asked"]
            f, how = a["folder"], a["how"]
            check.count(how)
            if st["result"] == "none":
                if how == "train":
                    if objs:
                        with torch.no_grad():
                            for p in objs[0].parameters():
                                p.add_(0.5)
                else:
                    write(root, f, st["folders"][f])
                continue
            d = root / f"m{f}"
            kw = params(f, a["args"])
            before = listing(root)
            if how == "files":
                call = lambda: tv.load_separator_model(rng.choice([str, Path])(d / "model_weights.ckpt"), rng.choice([str, Path])(d / "model_config.yaml"), **kw)
            else:
                path = {"folder": str(d), "slash": str(d) + "/", "nowhere": str(d) + "x", "notFolder": str(d / "model_config.yaml")}[how]
                if how == "notFolder":
                    (root / "plain").write_text("x")
                    path = str(root / "plain")
                    before = listing(root)
                call = lambda: tv.load_separator(path, **kw)
            kw0 = copy.deepcopy(kw)
            sep, err = bss.attempt(call)
            check.comparisons += 1
            info = dict(asked=a, folder=st["folders"][f], step=k, behaviour=i, error=err)
            if listing(root) != before or kw != kw0:
                check.violation("loading changed files or arguments", info, b)
                return
            if st["result"] == "refused":
                if err is None:
                    check.violation("an incomplete or unsuitable model is loaded", info, b)
                    return
                if how in ("nowhere", "notFolder", "files", "folder") and st["folders"][f]["fits"] and not err.startswith("ValueError"):
                    check.violation("a missing file is not reported as ValueError", info, b)
                    return
                continue
            if err:
                check.violation("raises", info, b)
                return
            objs.append(sep)
            o = st["objects"][-1]
            want = tv.nn.BSSSeparator(**config(f, o["params"]))
            want.load_state_dict(weights_of(f, o["weights"]))
            if not same_state(sep.state_dict(), want.state_dict()):
                check.violation("weights", info, b)
                return
            # separators already in memory are left alone
            for old, oo in zip(objs[:-1], st["objects"][:-1]):
                w = weights_of(oo["folder"], oo["weights"] % 1000)
                if oo["weights"] < 1000 and not same_state(old.state_dict(), w):
                    check.violation("loading or training one separator changed another", info, b)
                    return
            # what runs is a copy: the separator in memory may share something with others
            train = rng.random() < 0.2
            sep = copy.deepcopy(sep)
            if sep.training != want.training:
                check.violation("the loaded separator is in another mode", info, b)
                return
            sep.train(train), want.train(train)
            x = torch.randn(2, 200 + rng.randrange(40), generator=torch.Generator().manual_seed(i * 100 + k)).double()
            sep.double(), want.double()
            torch.set_default_dtype(torch.float64)
            with torch.no_grad():
                torch.manual_seed(k)
                y, e1 = bss.attempt(lambda: sep(x))
                torch.manual_seed(k)
                yw, e2 = bss.attempt(lambda: want(x))
            torch.set_default_dtype(torch.float32)
            if e1 or e2:
                check.count("separation raises")
                if (e1 is None) != (e2 is None):
                    check.violation("the loaded separator raises", dict(info, error=e1 or e2), b)
                    return
            elif not bss.compare(check, "the loaded separator separates differently", b, y, yw, 1e-7, info, 1e-9):
                return
    finally:
        torch.set_default_dtype(torch.float32)
        shutil.rmtree(root, ignore_errors=True)


def run(check):
    n = 240 if TIER == "quick" else 2000
    base = Path(check.scratch) / "ld"
    base.mkdir()
    for i, b in enumerate(run_quint(check, "loader", n, 16, invariants=["onlyComplete", "argumentsWin"])):
        replay(check, b, i, base)
        check.sample({"asked": [s["asked"] for s in b.states[1:4]]})


if __name__ == "__main__":
    main_of(run, "C19")
