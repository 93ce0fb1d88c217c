import random

import torch

from core import SEED, TIER, main_of, run_quint
import bss
from bss import tv


def place(t, axis, shared):
    """[row][time] as a 3-D tensor with time on the given axis."""
    t = t[:, None, :]
    return t.movedim(-1, axis).contiguous()


def run(check):
    n = 2000 if TIER == "quick" else 8000
    for i, b in enumerate(run_quint(check, "conv", n, 4, invariants=["mass", "validIsComplete"])):
        cfg = b[0]["cfg"]
        rng = random.Random(SEED * 1000003 + i)
        dt = rng.choice([torch.float64, torch.float32])
        axis = cfg["axis"]
        x1 = place(torch.tensor(b[0]["a"], dtype=dt), axis, False)
        x2 = place(torch.tensor(b[0]["b"], dtype=dt), axis, cfg["share"])
        want = place(torch.tensor(b[-1]["out"], dtype=torch.float64), axis, False)
        if axis == 2 and rng.random() < 0.3:
            x1, x2, want = x1[:, 0], x2[:, 0], want[:, 0]
        if axis == 2 and cfg["share"] == 1 and rng.random() < 0.5:
            x2 = x2.reshape(-1)
        if axis == 2 and cfg["share"] == 2 and x1.ndim == 2 and rng.random() < 0.5:
            x1 = x1.reshape(-1)
        dim = axis if x1.ndim == 3 else -1
        if x1.ndim == 3 and rng.random() < 0.5 and x2.ndim == 3:
            dim = axis - 3
        if x2.ndim == 1:
            dim = -1
        d = dict(cfg=cfg, dtype=str(dt), dim=dim, shapes=[list(x1.shape), list(x2.shape)])
        lk = rng.choice(bss.LAYOUTS)
        x1, x2 = bss.layout(x1, lk if x1.ndim > 1 else "plain"), bss.layout(x2, rng.choice(bss.LAYOUTS) if x2.ndim > 1 else "plain")
        k1, k2 = x1.clone(), x2.clone()
        if dim == -1 and cfg["mode"] == "full" and rng.random() < 0.5:
            out, err = bss.attempt(lambda: tv.fftconvolve(x1, x2))
        else:
            out, err = bss.attempt(lambda: tv.fftconvolve(x1, x2, mode=cfg["mode"], dim=dim))
        check.traces += 1
        check.count(f"mode {cfg['mode']}")
        check.sample({"cfg": cfg})
        if err:
            check.violation("raises", dict(d, error=err), b)
            continue
        if out.dtype != dt or not torch.equal(x1, k1) or not torch.equal(x2, k2):
            check.violation("dtype or input modified", dict(d, got=str(out.dtype)), b)
            continue
        bss.compare(check, "convolution", b, out, want, 1e-11 if dt == torch.float64 else 1e-4, d, 1.0 if cfg["level"] < 100 else 1e9)
    _, err = bss.attempt(lambda: tv.fftconvolve(torch.ones(3), torch.ones(3), mode="other"))
    if err is None:
        check.violation("an unknown mode is accepted", {}, None)


if __name__ == "__main__":
    main_of(run, "C15")
