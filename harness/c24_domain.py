"""Arguments outside of a component's domain are refused, and a refused call leaves nothing behind."""
import random

import torch

from core import SEED, TIER, main_of, run_quint, verify_exhaustive
import bss
from bss import tv
import session as ss

WAVE = ("stft", "istft", "sep")
ALGOS = ["tiss", "ip2", "five", "mvdr", "mwf", "gev", "ip", "TISS", ""]
WINDOWS = ["hann", "hamming", "blackman", "bartlett", "nosuchwindow"]
MODES = ["full", "same", "valid", "circular", "FULL", "valid ", "none", "0", "1"]
FORMATS = [torch.float32, torch.float64, torch.complex64, torch.complex128, torch.int32, torch.bool, torch.float16, torch.int64, torch.uint8]


def cplx(g, *shape):
    return torch.view_as_complex(torch.randn(shape + (2,), generator=g, dtype=torch.float64))


def construct(comp, b, rng):
    """A function that makes the object (so that twins can be made)."""
    none = lambda v: None if v == -1 else v  # noqa: E731
    if comp in ("tiss", "ip", "ip2", "five"):
        model = [None, "gauss", "nmf", 3, "laplace"][b["name"]]
        mk = {"gauss": tv.models.GaussModel, "nmf": tv.models.NMFModel}.get(model, lambda: model)
        kw = dict(n_iter=rng.choice([1, 2]), proj_back_mic=none(b["mic"]))
        if comp in ("tiss", "ip"):
            kw["n_src"] = none(b["nsrc"])
        if comp == "tiss":
            kw.update(use_dmc=rng.random() < 0.3, n_taps=rng.choice([0, 1]))
        return lambda: getattr(tv, ss.CLASSES[comp])(model=mk(), **kw)
    if comp == "mvdr":
        return lambda: tv.MVDRBeamformer(ss.Masks(b["masks"], 1.0), ref_mic=b["mic"], mvdr_type=["rtf", "scm", "max"][b["name"]])
    if comp == "mwf":
        return lambda: tv.MWFBeamformer(ss.Masks(b["masks"], 1.0), ref_mic=b["mic"], time_invariant=b["name"] == 0)
    if comp == "gev":
        return lambda: tv.GEVBeamformer(ss.Masks(b["masks"], 1.0), ref_mic=b["mic"])
    if comp in ("stft", "istft"):
        if b["len"] <= 0:
            win = WINDOWS[b["name"]]
        else:
            win = torch.ones(b["len"]) if b["masks"] == 1 else torch.ones((b["len"], 1) if b["masks"] == 2 else (1, b["len"]))
            win = win.numpy() if rng.random() < 0.5 else win
        return lambda: tv.STFT(16, window=win)
    if comp == "sep":
        a = ALGOS[b["name"]]
        a = tv.SepAlgo(a) if b["name"] < 6 and rng.random() < 0.3 else a
        sm = (lambda: ss.Masks({"mvdr": 3, "mwf": 4, "gev": 2}[ALGOS[b["name"]]], 1.0)) if b["name"] in (3, 4, 5) else tv.models.LaplaceModel
        return lambda: tv.nn.BSSSeparator(16, n_iter=1, n_src=none(b["nsrc"]) if b["name"] == 0 else None, algo=a, source_model=sm(), proj_back_mic=b["mic"])
    if comp == "nmf":
        return lambda: tv.models.NMFModel()
    nets = {"glu": lambda: tv.models.GLUMask(5, 6), "blstm": lambda: tv.models.BLSTMMask(5, 6, n_hidden=3), "simple": lambda: tv.models.SimpleModel(n_freq=5, n_mels=3)}
    if comp in nets:
        return lambda: nets[comp]().eval().double()
    return lambda: None


def arguments(comp, k, rng, g):
    """(input, other arguments, keyword arguments) of a call."""
    C, F, N = k["chans"], k["freqs"], k["frames"]
    kw = {}
    if comp in ("tiss", "ip", "ip2", "five", "mvdr", "mwf", "gev"):
        X = cplx(g, *{3: (C, F, N), 2: (F, N), 1: (N,)}[k["rank"]])
        if comp in ("tiss", "ip") and (k["nsrc"] != -2 or rng.random() < 0.3):
            kw["n_src"] = None if k["nsrc"] == -2 else k["nsrc"]
        if comp in ("tiss", "ip", "ip2", "five") and (k["mic"] != -2 or rng.random() < 0.3):
            kw["proj_back_mic"] = None if k["mic"] == -2 else k["mic"]
        return X, (), kw
    if comp in ("stft", "sep"):
        return torch.randn((C, N), generator=g), (), kw
    if comp == "istft":
        return cplx(g, C, F, N).to(torch.complex64), (), kw
    if comp == "nmf":
        return cplx(g, *{3: (C, F, N), 2: (C, F, N), 1: (N,)}[k["rank"]]), (), kw
    if comp in ("glu", "blstm", "simple"):
        return cplx(g, C, F, N), (), kw
    if comp == "md":
        q = None if k["q"] == 0 else k["q"] / 4
        return cplx(g, C, F, N), (cplx(g, F, N),), dict(p=k["p"] / 4, q=q, max_iter=2)
    if comp == "conv":
        d = k["mic"]
        sh = [3, 3]
        if -2 <= d < 2:
            sh[d] = 5
        return torch.randn(tuple(sh), generator=g), (torch.randn((3, 3), generator=g),), dict(mode=MODES[k["kind"]], dim=d)
    if comp == "inv2":
        return cplx(g, C, F) + 3 * torch.eye(max(C, F))[:C, :F], (), kw
    if comp == "eigh2":
        def herm(r, c):
            A = cplx(g, r, c)
            return A @ A.mH + torch.eye(r) if r == c else A
        return herm(C, F), (() if k["kind"] == 0 else (herm(max(k["nsrc"], 1), max(k["mic"], 1)),)), kw
    raise AssertionError(comp)


def entry(comp, obj):
    if comp in ("md", "conv", "inv2", "eigh2"):
        return {"md": tv.minimum_distortion, "conv": tv.fftconvolve, "inv2": tv.linalg.inv_2x2, "eigh2": tv.linalg.eigh_2x2}[comp]
    return obj.inv if comp == "istft" else obj


def formats(check, k, i, b, rng):
    from torchiva import dtypes
    t = FORMATS[k["kind"]]
    cp = {torch.float32: torch.complex64, torch.float64: torch.complex128}
    re = {v: u for u, v in cp.items()}
    v = torch.zeros(2, dtype=t) if rng.random() < 0.5 else t
    for fn, want in ((dtypes.dtype_f2cpx, cp.get(t, t)), (dtypes.dtype_cpx2f, re.get(t, t))):
        got, err = bss.attempt(lambda: fn(v))
        check.comparisons += 1
        if (err is None) != (k["kind"] < 4) or (err is None and got != want):
            check.violation("corresponding number format", dict(function=fn.__name__, given=str(t), got=str(got), want=str(want), error=err), b)
    got, err = bss.attempt(lambda: dtypes.is_complex_type(v))
    if err or bool(got) != t.is_complex:
        check.violation("complex formats", dict(given=str(t), got=str(got), error=err), b)


def clone_state(obj):
    if obj is None:
        return []
    st = [v.clone() for v in obj.state_dict().values()]
    return st + [getattr(obj, n).clone() for n in ("T", "V") if torch.is_tensor(getattr(obj, n, None))]


def run(check):
    inv = ["withinInput", "refusedLeavesNothing", "nothingWithoutObject"]
    verify_exhaustive(check, "domain", inv, main="domainSmall")
    n = 2500 if TIER == "quick" else 20000
    for i, b in enumerate(run_quint(check, "domain", n, 6, invariants=inv, main="domainFull")):
        st, comp, bd = b[-1], b[0]["comp"], b[0]["build"]
        rng = random.Random(SEED * 1000003 + i)
        seed = rng.randrange(1 << 30)
        check.traces += 1
        check.count(comp)
        check.sample({"component": comp, "build": bd, "steps": st["steps"]})
        d = dict(component=comp, build=bd)
        if comp == "format":
            for s in st["steps"]:
                formats(check, s["call"], i, b, rng)
            continue
        make = construct(comp, bd, rng)
        torch.manual_seed(seed)
        obj, err = bss.attempt(make)
        check.comparisons += 1
        if (err is None) != st["built"]:
            check.violation("construction accepted" if err is None else "construction refused", dict(d, error=err), b)
            continue
        if not st["built"]:
            check.count("construction refused")
            continue
        torch.manual_seed(seed)
        twin = make()                      # is only given the accepted calls
        g = torch.Generator().manual_seed(seed + 1)
        for j, s in enumerate(st["steps"]):
            k, out = s["call"], s["out"]
            X, args, kw = arguments(comp, k, rng, g)
            keep, before = [X.clone()] + [a.clone() for a in args], clone_state(obj)
            if comp == "nmf" and k["kind"] == 0:
                obj.reset()
                twin.reset()
                before = clone_state(obj)
            torch.manual_seed(seed + j)
            got, err = bss.attempt(lambda: entry(comp, obj)(X, *args, **kw))
            dd = dict(d, call=k, step=j, error=err)
            check.comparisons += 1
            if not all(torch.equal(a, c) for a, c in zip([X, *args], keep)):
                check.violation("input modified", dd, b)
                break
            if (err is None) != out["ok"]:
                check.violation("accepted outside of the domain" if err is None else "refused inside of the domain", dd, b)
                break
            if not out["ok"]:
                check.count(f"{comp} refused")
                after = clone_state(obj)
                if len(after) != len(before) or not all(torch.equal(x, y) for x, y in zip(after, before)):
                    check.violation("a refused call changes the object", dd, b)
                    break
                continue
            check.count(f"{comp} accepted")
            torch.manual_seed(seed + j)
            want = entry(comp, twin)(keep[0].clone(), *[a.clone() for a in keep[1:]], **kw)
            if isinstance(got, (tuple, list)):
                got, want = got[1], want[1]
            shape = out["shape"]
            if comp in ("glu", "blstm", "simple"):
                shape = list(want.shape)
            if shape and list(got.shape) != shape:
                check.violation("shape of the result", dict(dd, got=list(got.shape), want=shape), b)
                break
            if not bss.compare(check, "a call after refused ones", b, got, want, 1e-9, dd):
                break


if __name__ == "__main__":
    main_of(run, "C24")
