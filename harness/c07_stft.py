import random

import numpy as np
import torch

from core import SEED, TIER, R, T, main_of, run_quint
import bss
from bss import tv


def embed(x, rng, kind):
    if kind == "single":
        return x, lambda t: t
    g = torch.Generator().manual_seed(rng.randrange(2 ** 31))
    other = torch.randn(x.shape, generator=g, dtype=torch.float64).to(x.dtype) * (3 * float(x.abs().max()) + 1)
    if kind == "one":
        return x[None], lambda t: t[0]
    if kind == "first":
        return torch.stack([x, other]), lambda t: t[0]
    if kind == "last":
        return torch.stack([other, x]), lambda t: t[1]
    return torch.stack([other, x, -other, x * 2, other, other]).reshape((2, 3) + x.shape), lambda t: t[0, 1]


def run(check):
    n = 800 if TIER == "quick" else 3600
    for i, b in enumerate(run_quint(check, "stft", n, 8, invariants=["perfectReconstruction", "coverage", "sameLength"])):
        cfg = b[0]["cfg"]
        rng = random.Random(SEED * 1000003 + i)
        x = R(b[0]["x"])
        w = R(b[0]["w"])
        hop = None if cfg["hop"] == 0 else cfg["hop"]
        win = cfg["win"]
        fmts = {"single": torch.float32, "double": torch.float64, "none": None}
        if win == "custom":
            win = w.to(fmts[cfg["own"]])
            win = rng.choice([win, win.numpy().copy()])
        elif win == "hann" and rng.random() < 0.5:
            win = None
        dt = fmts[b[0]["format"]]
        # a window that went through single precision carries its rounding
        rough = torch.float32 in (dt, fmts[cfg["own"]] if cfg["win"] == "custom" else dt)
        tol = 2e-5 if rough else 1e-9
        d = dict(cfg=cfg, window=str(type(win)), dtype=str(dt))
        torch.set_default_dtype(fmts[cfg["dflt"]])
        kw = {} if cfg["given"] == "none" else dict(dtype=fmts[cfg["given"]])
        eng, err = bss.attempt(lambda: tv.STFT(cfg["nfft"], hop_length=hop, window=win, **kw))
        check.traces += 1
        check.count(f"window {cfg['win']}")
        check.sample({"cfg": cfg, "actions": [s.get("action") for s in b.states]})
        if err:
            check.violation("the transform cannot be built", dict(d, error=err), b)
            continue
        check.comparisons += 1
        told = dict(n_fft=(eng.n_fft, cfg["nfft"]), n_freq=(eng.n_freq, cfg["nfft"] // 2 + 1), hop_length=(hop if hop is None else eng.hop_length, hop), window_type=(eng.window_type, cfg["win"]),
                    format=(eng.window.dtype, dt))
        if any(a != c for a, c in told.values()):
            check.violation("what the transform tells about itself", dict(d, told=str(told)), b)
            continue
        if not bss.compare(check, "window", b, eng.window, w, tol, d):
            continue
        bk, lk = rng.choice(["single", "one", "first", "last", "grid"]), rng.choice(["plain", "strided"])
        xb, pick = embed(x.to(dt), rng, bk)
        xb = bss.layout(xb, lk)
        keep = xb.clone()
        d.update(batch=bk, layout=lk)
        cd = torch.complex64 if dt == torch.float32 else torch.complex128
        xf = float(x.abs().max()) * 1e-3
        for s in b.states:
            if s.get("action") == "analyse":
                out, err = bss.attempt(lambda: eng(xb))
                if err:
                    check.violation("analysis raises", dict(d, error=err), b)
                    break
                if out.dtype != cd or not torch.equal(xb, keep):
                    check.violation("analysis dtype or input modified", dict(d, got=str(out.dtype)), b)
                    break
                if not bss.compare(check, "analysis", b, pick(out), T(s["X"]), tol, d, xf):
                    break
            elif s.get("action") == "synthesise":
                X = T(s["X"]).to(cd)
                Xb, pk = bss.batch_variant(X, rng, bk)
                Xb = bss.layout(Xb, lk)
                k2 = Xb.clone()
                out, err = bss.attempt(lambda: eng.inv(Xb))
                if err:
                    check.violation("synthesis raises", dict(d, error=err), b)
                    break
                if out.dtype != dt or not torch.equal(Xb, k2):
                    check.violation("synthesis dtype or input modified", dict(d, got=str(out.dtype)), b)
                    break
                if not bss.compare(check, "synthesis", b, pk(out), R(s["y"]), tol, d, xf):
                    break
            elif s.get("action") == "fit" and not cfg["arbitrary"] and not rough and cfg["dflt"] == "double":
                # zero iterations: the pipeline returns the first sources of its input
                src = rng.choice([None] + list(range(1, cfg["C"] + 1)))
                sep, err = bss.attempt(lambda: tv.nn.BSSSeparator(cfg["nfft"], n_iter=0, hop_length=hop, window=win, n_src=src,
                                                                  algo="tiss", proj_back_mic=None))
                if err is None:
                    out, err = bss.attempt(lambda: sep(xb))
                if err:
                    check.violation("pipeline raises", dict(d, error=err), b)
                    break
                bss.compare(check, "pipeline output has the input's length and samples", b, pick(out), R(s["fitted"])[:src], tol, dict(d, n_src=src), xf)
                check.count("pipeline")
    torch.set_default_dtype(torch.float32)


if __name__ == "__main__":
    main_of(run, "C07")
