"""A call computes in the number format of its input, whatever the process-wide default is."""
import random

import torch

from core import SEED, TIER, main_of, rel_err, run_quint, verify_exhaustive
import bss
from bss import tv
import session as ss
import c11_batch as comps

F = {32: (torch.float32, torch.complex64), 64: (torch.float64, torch.complex128)}

NETS = ("glu", "blstm", "simple", "masks")


def build(comp, v, bits):
    """Constructed under the current default format; neural networks have the format of the inputs."""
    rng = random.Random(v)
    g = torch.Generator().manual_seed(0)
    if comp == "nmf":
        m = tv.NMFModel(n_basis=1 + v % 3)

        def fn(X):
            m.reset()
            return m(X)
        return fn, (2, 4, 20), True
    if comp == "md":
        return (lambda Z: tv.minimum_distortion(Z[..., 1:, :, :], Z[..., 0, :, :], p=1.0, q=[None, 2.0][v % 2], max_iter=2)), (3, 3, 20), True
    if comp == "linalg":
        L = tv.linalg
        f = [lambda A, B: L.solve_loaded(A, B), lambda A, B: L.solve_loaded_general(A, B), lambda A, B: L.inv_loaded(A),
             lambda A, B: L.bmm(A, B), lambda A, B: L.eigh(A @ L.hermite(A)).eigenvectors.abs(), lambda A, B: L.inv_2x2(A[..., :2, :2])][v]
        return (lambda Z: f(Z[..., 0, :, :], Z[..., 1, :, :])), (2, 4, 4), True
    dflt = torch.get_default_dtype()
    fn, items = comps.component(comp, v, rng, g)
    if comp in NETS:
        fn = fn.to(F[bits][0])
    if comp == "istft":
        return fn, tuple(items.shape[1:]), "istft"
    shape = tuple(items.shape[1:])
    if items.is_complex() and len(shape) == 3:
        shape = shape[:2] + (40,)  # enough frames for well conditioned statistics
        if v in (0, 3, 5) and comp in ("tiss", "ip", "wpe", "laplace", "gauss", "pb", "l2", "phase"):
            shape = (4 + v % 2,) + shape[1:]
    elif not items.is_complex():
        shape = shape[:1] + (240,)
    assert torch.get_default_dtype() == dflt
    return fn, shape, items.is_complex()


def smooth(check, b, fn, x, y, d):
    """Results in double precision vary with the input as finely as double precision does: nothing on the way was rounded to fewer digits."""
    g = torch.Generator().manual_seed(5)
    D = torch.randn(x.shape + ((2,) if x.is_complex() else ()), generator=g, dtype=torch.float64)
    D = (torch.view_as_complex(D) if x.is_complex() else D) * x.abs().mean()

    def at(t):
        torch.manual_seed(3)
        return fn(x + t * D).detach()
    worst = None
    for t in (1e-7, 1e-8):
        bend, err = bss.attempt(lambda: at(2 * t) - 2 * at(t) + y)
        if err:
            return check.violation("raises", dict(d, error=err), b)
        e = float(bend.abs().max() / y.abs().max().clamp(min=1e-12))
        worst = e if worst is None else min(worst, e)
        if worst < 2e-9:
            break
    check.comparisons += 1
    if worst >= 2e-9:
        rounding = float((at(1e-13) - y).abs().max() / y.abs().max().clamp(min=1e-12))
        if rounding > 1e-10 or worst > 1e-3:
            check.ill_conditioned = getattr(check, "ill_conditioned", 0) + 1
            return None
        check.violation("double precision is rounded on the way", dict(d, error=worst, rounding=rounding), b)
        return False
    check.max_err = max(check.max_err, worst)


def run(check):
    verify_exhaustive(check, "precision", ["follows", "constant_in_time"], main="precisionSmall")
    n = 640 if TIER == "quick" else 5000
    for i, b in enumerate(run_quint(check, "precision", n, 12, invariants=["follows", "constant_in_time"], main="precisionFull")):
        comp, v = b[0]["comp"], b[0]["setting"]
        if not b[-1]["calls"]:
            continue
        check.count(comp)
        check.traces += 1
        try:
            torch.set_default_dtype(torch.float64)
            ref, shape, kind = build(comp, v, 64)
            g = torch.Generator().manual_seed(SEED * 7919 + i)
            if kind == "istft":
                st = tv.STFT(8, hop_length=[4, 2, None][v % 3])
                ins = [st(torch.randn((2, 60), generator=g, dtype=torch.float64) * a) for a in (1.0, 3.0, 0.5)]
                kind = True
            elif kind:
                ins = [torch.view_as_complex(torch.randn(shape + (2,), generator=g, dtype=torch.float64)) * a for a in (1.0, 3.0, 0.5)]
            else:
                ins = [torch.randn(shape, generator=g, dtype=torch.float64) * a for a in (1.0, 3.0, 0.5)]
            # what single precision input can hold
            ins = [x.to(F[32][1 if x.is_complex() else 0]).to(x.dtype) for x in ins]
            objs = {}
            done = 0
            for s in b.states:
                if s.get("action") == "construct":
                    torch.set_default_dtype(F[s["built"]][0])
                    for bits in (32, 64):
                        objs[bits] = build(comp, v, bits)[0]
                        if comp in NETS:
                            objs[bits].load_state_dict(ref.state_dict())
                        else:
                            objs[64] = objs[32]
                            break
                if len(s["calls"]) == done:
                    continue
                done = len(s["calls"])
                c = s["calls"][-1]
                x64 = ins[c["input"]]
                x = x64.to(F[c["bits"]][1 if x64.is_complex() else 0])
                d = dict(comp=comp, setting=v, bits=c["bits"], default=c["default"], built=s["built"])
                torch.set_default_dtype(torch.float64)
                torch.manual_seed(3)
                want, err = bss.attempt(lambda: ref(x64.clone()).detach())
                if err:
                    check.violation("raises", dict(d, error=err), b)
                    break
                torch.set_default_dtype(F[c["default"]][0])
                torch.manual_seed(3)
                got, err = bss.attempt(lambda: objs[c["bits"]](x))
                if err:
                    check.violation("raises", dict(d, error=err), b)
                    break
                if got.dtype != F[c["result"]][1 if want.is_complex() else 0]:
                    check.violation("format of the result", dict(d, got=str(got.dtype)), b)
                    break
                if torch.get_default_dtype() != F[c["default"]][0]:
                    check.violation("default format changed", d, b)
                    break
                if comp == "nmf":
                    continue  # a random start per format: only the format is compared
                if c["bits"] == 64 and c["accuracy"] == 64 and smooth(check, b, objs[64], x, got.detach(), d) is False:
                    break
                if not bss.compare(check, "value", b, got.to(want.dtype), want, 1e-9 if c["accuracy"] == 64 else 2e-2, d, 1e-6):
                    break
        finally:
            torch.set_default_dtype(torch.float32)
        check.sample({"comp": comp, "calls": b[-1]["calls"]})


if __name__ == "__main__":
    main_of(run, "C22")
