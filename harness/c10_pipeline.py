"""The end-to-end separator is analysis, the chosen algorithm with its parameters, synthesis."""
import random

import torch

from core import SEED, TIER, main_of, run_quint
import bss
from bss import tv
import session as ss
from c12_grad import Learned

VALUES = {
    "n_iter": [0, 1, 3, 8], "hop_length": [None, 4, 2, 3, "half", "full"],
    "window": [None, "hamming", "hann", "blackman", "tensor", "array", "ones"], "n_taps": [0, 1, 2, 4, 7], "n_delay": [0, 1, 2, 4],
    "n_src": [None, 1, 2, 3, 4], "proj_back_mic": [None, 0, 1, -1], "use_dmc": [False, True], "n_power_iter": [None, 1, 3, 30],
    "eps": [1e-5, 1e-3, 0.1, 1e-8, 0.0],
}


def value(p, v, nfft, C):
    x = VALUES[p][v]
    if p == "hop_length":
        return {"half": nfft // 2, "full": nfft}.get(x, x)
    if p == "window" and x in ("tensor", "array", "ones"):
        w = 0.2 + torch.rand(nfft, generator=torch.Generator().manual_seed(nfft), dtype=torch.float64)
        w = torch.ones_like(w) if x == "ones" else w
        return w.numpy() if x == "array" else w
    if p == "n_src" and x is not None:
        return min(x, C)
    return x


DEFAULTS = dict(n_iter=20, n_taps=0, n_delay=0, n_src=None, proj_back_mic=0, use_dmc=False, n_power_iter=None, eps=1e-5)
BF = ("mvdr", "mwf", "gev")


def source_model(algo, idx, form, seed, nfft):
    """(what the separator is given, an equal model for the reference)"""
    if algo in BF:
        m = [ss.Masks(2, 1.0), ss.Masks(3 if algo == "mvdr" else 2, 1.0), ss.Masks(2, 2.0)][idx % 3]
        return m, m
    if idx == -1:
        return None, tv.models.LaplaceModel()
    if idx == 5:
        m = Learned()
        return m, m
    name = ["LaplaceModel", "GaussModel", "NMFModel", "LaplaceModel", "SimpleModel"][idx]
    kw = [{"eps": 1e-3}, {}, {"n_basis": 3}, {}, {"n_freq": nfft // 2 + 1, "n_mels": 4}][idx]
    if idx == 4:
        # the same initial weights in both
        out = []
        for _ in range(2):
            torch.manual_seed(seed)
            out.append(getattr(tv.models, name)(**kw))
        torch.manual_seed(seed)
        return ({"name": f"torchiva.models.{name}", "kwargs": kw} if form == "dict" else out[0]), out[1]
    if form == "dict":
        return {"name": f"torchiva.models.{name}", "kwargs": kw}, getattr(tv.models, name)(**kw)
    return getattr(tv.models, name)(**kw), getattr(tv.models, name)(**kw)


def run(check):
    torch.set_default_dtype(torch.float64)
    n = 480 if TIER == "quick" else 3600
    for i, b in enumerate(run_quint(check, "pipeline", n, 5, invariants=["lengthPreserved", "engineKnowsItsParameters"])):
        rng = random.Random(SEED * 1000003 + i)
        algo, given, eng, nfft, C = b[0]["algo"], b[0]["given"], b[-1]["engine"], b[0]["nfft"], b[0]["chans"]
        form = rng.choice(["object", "dict"])
        model, ref_model = source_model(algo, given["source_model"], form, SEED, nfft)
        kw = {}
        for p, v in given.items():
            if v == -1 or p == "source_model":
                continue
            val = value(p, v, nfft, C)
            if p == "proj_back_mic" and algo in BF and val is None:
                val = 0
            kw[p] = val
        if model is not None:
            kw["source_model"] = model
        a = algo if rng.random() < 0.7 else tv.SepAlgo(algo)
        if algo == "tiss" and rng.random() < 0.3:
            a = None
        if a is not None:
            kw["algo"] = a
        d = dict(algo=algo, given={k: v for k, v in given.items() if v != -1}, nfft=nfft, chans=C, form=form)
        sep, err = bss.attempt(lambda: tv.nn.BSSSeparator(nfft, **kw))
        check.traces += 1
        check.count(f"algo {algo}")
        if err:
            check.violation("construction raises", dict(d, error=err), b)
            continue
        # the reference: public parts put together as the specification says
        params = {}
        for p, v in eng["params"].items():
            src = {"model": "source_model", "mask_model": "source_model", "ref_mic": "proj_back_mic"}.get(p, p)
            if src == "source_model":
                params[p] = ref_model
            elif v == -1:
                params[p] = DEFAULTS[src]
            else:
                params[p] = kw.get(src, DEFAULTS[src])
        if algo == "mvdr":
            params["mvdr_type"] = "rtf"
        if algo == "mwf":
            params["time_invariant"] = True
        ref = getattr(tv, ss.CLASSES[algo])(**params)
        stft = tv.STFT(nfft, hop_length=kw.get("hop_length"), window=kw.get("window"))
        for j, (L, o) in enumerate(zip(b[-1]["lengths"], b[-1]["outs"])):
            shape = rng.choice([(C, L), (1, C, L), (2, C, L), (2, 3, C, L)])
            g = torch.Generator().manual_seed(rng.randrange(2 ** 31))
            x = torch.randn(shape, generator=g)
            keep = x.clone()
            seed = rng.randrange(2 ** 31)
            torch.manual_seed(seed)
            got, err = bss.attempt(lambda: sep(x))
            torch.manual_seed(seed)
            y, err2 = bss.attempt(lambda: stft.inv(ref(stft(keep))))
            dd = dict(d, length=L, call=j, shape=list(shape))
            if err or err2:
                if (err is None) != (err2 is None):
                    check.violation("raises", dict(dd, error=err or err2), b)
                    break
                check.count("both raise")
                continue
            want = torch.zeros(shape[:-2] + (o["sources"], o["length"]))
            m = min(L, y.shape[-1])
            if y.shape[:-1] != want.shape[:-1]:
                check.violation("number of sources", dict(dd, got=list(y.shape)), b)
                break
            want[..., :m] = y[..., :m]
            if not torch.equal(x, keep):
                check.violation("input modified", dd, b)
                break
            # without regularisation some recordings have no finite result
            nan = torch.isnan(want)
            if nan.any():
                check.count("not finite")
                if got.shape == want.shape and torch.equal(torch.isnan(got), nan):
                    got, want = torch.nan_to_num(got), torch.nan_to_num(want)
            if not bss.compare(check, "output", b, got, want, 1e-9, dd, 1e-9):
                break
        check.sample(d)
    # unknown algorithms are refused
    _, err = bss.attempt(lambda: tv.nn.BSSSeparator(16, algo="nosuch"))
    if err is None:
        check.violation("an unknown algorithm is accepted", {}, None)


if __name__ == "__main__":
    main_of(run, "C10")
