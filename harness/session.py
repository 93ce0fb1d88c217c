"""Replay of behaviours of spec/session.qnt: objects, calls with overrides, faults, shared models."""
import random

import torch

from core import SEED, rel_err
import bss
from bss import tv


class Failing(torch.nn.Module):
    """Delegates to a model and raises at its k-th evaluation."""

    def __init__(self, inner, k):
        super().__init__()
        if isinstance(inner, torch.nn.Module):
            self.inner = inner
        else:
            object.__setattr__(self, "inner", inner)
        self.left = k

    def reset(self):
        if hasattr(self.inner, "reset"):
            self.inner.reset()

    def forward(self, Y):
        self.left -= 1
        r = self.inner(Y)
        if self.left <= 0:
            raise ArithmeticError("planned failure of the model")
        return r


class Breakable(Failing):
    """A model of an object whose calls take no model: fails when told to."""

    def __init__(self, inner):
        super().__init__(inner, 0)
        self.left = None

    def forward(self, Y):
        if self.left is None:
            return self.inner(Y)
        return super().forward(Y)


class WpeWeights(torch.nn.Module):
    def __init__(self, p):
        super().__init__()
        self.p = p

    def forward(self, Y):
        return 1.0 / (0.1 + Y.abs().pow(self.p).mean(dim=-3))


class Masks(torch.nn.Module):
    """n masks for each of two sources, computed from the reference channel."""

    def __init__(self, n, p):
        super().__init__()
        self.n = n
        self.p = p

    def forward(self, x):
        a = x.abs().pow(self.p)
        r = (a / (a.max(dim=-1, keepdim=True).values + 1e-3)).clamp(0.05, 0.95)
        one = torch.stack([r, 1 - r, r.sqrt(), (1 - r).sqrt()][: self.n], dim=-3)
        return torch.stack([one, 0.5 * one.flip(-3) + 0.1], dim=-4)


def pool():
    """The models a session shares."""
    return [tv.models.LaplaceModel(), tv.models.GaussModel(), tv.models.NMFModel(n_basis=2)]


def mask_pool(comp):
    return [Masks(n, p) for n, p in zip({"mvdr": (2, 3, 2), "mwf": (4, 4, 4), "gev": (2, 2, 2)}[comp], (1.0, 1.0, 2.0))]


CLASSES = {"tiss": "T_ISS", "ip": "AuxIVA_IP", "ip2": "AuxIVA_IP2", "five": "FIVE", "wpe": "WPE", "mvdr": "MVDRBeamformer",
           "mwf": "MWFBeamformer", "gev": "GEVBeamformer"}

VALUES = {
    "n_iter": [0, 1, 2], "n_taps": [0, 1, 2], "n_delay": [0, 1, 2], "n_src": [None, 1, 2], "proj_back_mic": [None, 0, 1],
    "use_dmc": [False, True, False], "eps": [1e-5, 1e-3, 0.2], "n_power_iter": [None, 1, 3], "ref_mic": [0, 1, 2],
    "mvdr_type": ["rtf", "scm", "rtf"], "time_invariant": [True, False, True],
    "algo": ["tiss", "ip2", "five"], "hop": [None, 4, 3], "window": [None, "hamming", "hann"],
}


def value(comp, p, idx, models):
    if p == "model":
        return models[idx]
    if p == "mask_model":
        return models[idx]
    if p == "weights":
        return [None, WpeWeights(1.0), WpeWeights(2.0)][idx]
    return VALUES[p][idx]


def argname(p):
    return "model" if p == "weights" else p


def kwargs(comp, params, models):
    if comp in ("sep", "stft"):
        names = {"hop": "hop_length", "model": "source_model"}
        return {names.get(p, p): models[i] if p == "model" else VALUES[p][i] for p, i in params.items() if i != -1}
    return {argname(p): value(comp, p, i, models) for p, i in params.items() if i != -1}


def fresh_models(comp):
    if comp == "sep":
        return [Breakable(m) for m in pool()]
    if comp == "stft":
        return []
    return mask_pool(comp) if comp in ("mvdr", "mwf", "gev") else pool()


def evaluate(*objs):
    for o in objs:
        if isinstance(o, torch.nn.Module):
            o.eval()


def inputs(comp, seed):
    g = torch.Generator().manual_seed(seed % (2 ** 31))
    if comp == "sep":
        return [torch.randn(s, generator=g, dtype=torch.float64) for s in ((2, 120), (2, 2, 90), (2, 120), (1, 3, 2, 75))]
    if comp == "stft":
        x = [torch.randn(s, generator=g, dtype=torch.float64) for s in ((2, 60), (2, 5, 12, 2), (3, 2, 60), (2, 2, 5, 9, 2))]
        return [torch.view_as_complex(t) if t.shape[-1] == 2 else t for t in x]
    C = 2 if comp == "ip2" else 3
    shapes = [(C, 4, 24), (2, C, 4, 16), (C, 5, 20), (2, 2, C, 3, 14)]
    return [torch.view_as_complex(torch.randn(s + (2,), generator=g, dtype=torch.float64)) for s in shapes]


def construct(comp, params, models):
    if comp == "sep":
        return tv.nn.BSSSeparator(8, **kwargs(comp, params, models))
    if comp == "stft":
        return tv.STFT(8, **kwargs(comp, params, models))
    return getattr(tv, CLASSES[comp])(**kwargs(comp, params, models))


ATTRS = {
    "tiss": ["n_iter", "n_taps", "n_delay", "n_src", "model", "proj_back_mic", "use_dmc", "eps"],
    "ip": ["n_iter", "n_src", "model", "proj_back_mic", "eps"], "ip2": ["n_iter", "model", "proj_back_mic", "eps"],
    "five": ["n_iter", "model", "proj_back_mic", "eps", "n_power_iter"], "wpe": ["n_iter", "n_delay", "n_taps", "model", "eps"],
    "mvdr": ["mask_model", "ref_mic", "eps", "mvdr_type", "n_power_iter"], "mwf": ["mask_model", "ref_mic", "eps", "time_invariant"],
    "gev": ["mask_model", "ref_mic", "eps"],
}


def snapshot(comp, obj):
    out = {}
    for a in ATTRS[comp]:
        v = getattr(obj, a, None)
        out[a] = id(v) if isinstance(v, torch.nn.Module) else v
    return out


def random_model(comp, eff):
    return eff.get("model") == 2


def invoke(comp, obj, over, models, X, fault, seed, rng):
    """The call of the behaviour on a real object: ("ok", tensor) or ("raises", text)."""
    if comp in ("sep", "stft"):
        for m in models:
            m.left = rng.choice([1, 2]) if fault == "model" else None
        if fault == "sources":
            X = X.reshape(-1)
        torch.manual_seed(seed)
        r, err = bss.attempt(lambda: obj.inv(X) if comp == "stft" and X.is_complex() else obj(X))
        return ("raises", err) if err else ("ok", r)
    kw = kwargs(comp, over, models)
    if fault == "model":
        key = "mask_model" if comp in ("mvdr", "mwf", "gev") else "model"
        inner = kw.get(key)
        if inner is None:
            inner = getattr(obj, key)
        if inner is None:
            inner = WpeWeights(1.0)
        kw[key] = Failing(inner, rng.choice([1, 2]))
    if fault == "sources":
        if comp in ("tiss", "ip"):
            kw["n_src"] = X.shape[-3] + 1
        else:
            X = X[..., 0, 0, :]
    torch.manual_seed(seed)
    r, err = bss.attempt(lambda: obj(X, **kw))
    return ("raises", err) if err else ("ok", r)


def same(a, b, tol=1e-9):
    if a[0] != b[0]:
        return False, f"{a[0]} {a[1] if a[0] == 'raises' else ''} / {b[0]} {b[1] if b[0] == 'raises' else ''}"
    if a[0] == "raises":
        return True, 0.0
    e = rel_err(a[1], b[1])
    return e <= tol, e


def behaviours_of_calls(b):
    """(component, constructor parameters, calls) of a behaviour."""
    return b[0]["comp"], b[0]["ctor"], b[-1]["done"]
