"""What a component returns for a recording does not depend on the other recordings of its batch."""
import random

import torch

from core import SEED, TIER, main_of, rel_err, run_quint, verify_exhaustive
import bss
from bss import tv
import session as ss


def stft_items(g, C, F, N):
    X = torch.view_as_complex(torch.randn((5, C, F, N, 2), generator=g, dtype=torch.float64))
    # different levels, one recording that is almost silent and one with a silent beginning
    lev = torch.tensor([1.0, 30.0, 0.02, 1e-6, 3.0], dtype=torch.float64)
    X = X * lev[:, None, None, None]
    X[4, ..., : N // 3] = 0
    return X


def time_items(g, C, n):
    x = torch.randn((5, C, n), generator=g, dtype=torch.float64) * torch.tensor([1.0, 30.0, 0.02, 1e-6, 3.0], dtype=torch.float64)[:, None, None]
    x[4, :, : n // 3] = 0
    return x


def component(comp, v, rng, g):
    """(function of a batch, recordings, batch dimensions are required)"""
    import torchiva.scaling as sc
    C, F, N = rng.choice([(2, 3, 12), (3, 4, 15), (4, 2, 18)])
    model = [tv.LaplaceModel(), tv.GaussModel(), ss.WpeWeights(1.0)][v % 3] if comp in ("tiss", "ip", "ip2", "five") and v % 3 < 2 else None
    mic = [0, 1, None][v % 3]
    it = 1 + v % 3
    if comp == "tiss":
        s = tv.T_ISS(n_iter=it, n_taps=v % 4, n_delay=v % 2, n_src=[None, 1, 2][v % 3], model=model, proj_back_mic=[0, C - 1, None][(v // 2) % 3], use_dmc=v == 5)
    elif comp == "ip":
        s = tv.AuxIVA_IP(n_iter=it, n_src=[None, 1, 2][(v + 1) % 3], model=model, proj_back_mic=[0, C - 1, None][(v // 2) % 3])
    elif comp == "ip2":
        C = 2
        s = tv.AuxIVA_IP2(n_iter=it, model=model, proj_back_mic=mic)
    elif comp == "five":
        s = tv.FIVE(n_iter=it, model=model, proj_back_mic=[0, C - 1][v % 2], n_power_iter=[None, 2][v % 2])
    elif comp == "wpe":
        s = tv.WPE(n_iter=it, n_taps=1 + v % 3, n_delay=1 + v % 2)
    elif comp in ("mvdr", "mwf", "gev"):
        m = ss.mask_pool(comp)[v % 3]
        kw = {"mvdr": dict(mvdr_type=["rtf", "scm"][v % 2], n_power_iter=[None, 2][v // 3]) if v % 2 == 0 else dict(mvdr_type="scm"),
              "mwf": dict(time_invariant=v % 2 == 0), "gev": {}}[comp]
        s = getattr(tv, ss.CLASSES[comp])(m, ref_mic=v % 2, **kw)
    elif comp == "stft":
        s = tv.STFT(8, hop_length=[4, 2, None][v % 3])
        return s, time_items(g, C, 40 + v)
    elif comp == "istft":
        st = tv.STFT(8, hop_length=[4, 2, None][v % 3])
        return st.inv, torch.stack([st(x) for x in time_items(g, C, 40 + v)])
    elif comp == "sep":
        algo = ["tiss", "ip2", "five", "mvdr", "mwf", "gev"][v]
        C = 2 if algo == "ip2" else C
        sm = ss.Masks({"mvdr": 3, "mwf": 4, "gev": 2}[algo], 1.0) if algo in ss_bf else tv.LaplaceModel()
        return tv.nn.BSSSeparator(8, n_iter=2, hop_length=4, algo=algo, source_model=sm), time_items(g, C, 60 + v)
    elif comp in ("glu", "blstm", "simple", "masks"):
        torch.manual_seed(v)
        F = 33
        s = {"glu": lambda: tv.models.GLUMask(F, 6, mag_spec=v % 2 == 0, log_spec=v % 3 != 0),
             "blstm": lambda: tv.models.BLSTMMask(F, 6, n_hidden=5, mag_spec=v % 2 == 0, log_spec=v % 3 == 0),
             "simple": lambda: tv.models.SimpleModel(F, 6),
             "masks": lambda: tv.models.MaskMVDRSupport(n_input=F, n_hidden=4, n_src=1 + v % 2, n_masks=2 + v % 3)}[comp]().double().eval()
        for m in s.modules():
            if isinstance(m, torch.nn.BatchNorm1d):
                m.running_mean.normal_()
                m.running_var.uniform_(0.5, 2)
        return s, stft_items(g, 1, F, 9)[:, 0]
    elif comp in ("laplace", "gauss"):
        s = (tv.LaplaceModel if comp == "laplace" else tv.GaussModel)()
    elif comp in ("pb", "l2", "phase"):
        fn = {"pb": tv.projection_back, "l2": sc.minimum_distortion_l2, "phase": tv.minimum_distortion_l2_phase}[comp]
        return (lambda Z: fn(Z[..., 1:, :, :], Z[..., 0, :, :])), stft_items(g, C, F, N)
    elif comp == "energetic":
        return (lambda Z: tv.select_most_energetic(Z, num=1 + v % 2, dim=-2, dim_reduc=-1)), time_items(g, C, 30)
    elif comp == "conv":
        return (lambda Z: tv.fftconvolve(Z[..., 0, :], Z[..., 1, : 5 + v], mode=["full", "same", "valid"][v % 3])), time_items(g, 2, 30)
    elif comp == "linalg":
        L = tv.linalg
        f = [lambda A, B: L.solve_loaded(A, B), lambda A, B: L.solve_loaded_general(A, B), lambda A, B: L.inv_loaded(A),
             lambda A, B: L.bmm(A, B), lambda A, B: L.eigh(A @ L.hermite(A)).eigenvalues, lambda A, B: L.inv_2x2(A[..., :2, :2])][v]
        return (lambda Z: f(Z[..., 0, :, :], Z[..., 1, :, :])), stft_items(g, 2, 4, 4)
    return s, stft_items(g, C, F, N)


ss_bf = ("mvdr", "mwf", "gev")


def run(check):
    torch.set_default_dtype(torch.float64)
    verify_exhaustive(check, "batch", ["independent", "shaped"], main="batchSmall")
    n = 960 if TIER == "quick" else 4000
    for i, b in enumerate(run_quint(check, "batch", n, 28, invariants=["independent", "shaped"], main="batchFull")):
        comp, v = b[0]["comp"], b[0]["setting"]
        rng = random.Random(SEED * 1000003 + i)
        g = torch.Generator().manual_seed(SEED * 7919 + i)
        fn, items = component(comp, v, rng, g)
        lone = {}
        check.count(comp)
        for c in b[-1]["done"]:
            ids, shape = c["call"]["items"], c["call"]["shape"]
            d = dict(comp=comp, variant=v, items=ids, shape=shape)
            Z = torch.stack([items[k] for k in ids]).reshape(tuple(shape) + items.shape[1:])
            lk = rng.choice(bss.LAYOUTS)
            Z = bss.layout(Z, lk) if Z.ndim > 1 else Z
            keep = Z.clone()
            how = rng.choice(["grad", "grad", "no_grad", "no_grad", "inference"])
            d["mode"] = how
            check.count(how)
            with {"grad": torch.enable_grad, "no_grad": torch.no_grad, "inference": torch.inference_mode}[how]():
                got, err = bss.attempt(lambda: fn(Z))
            check.traces += 1
            if err:
                # refused as a whole when one of the recordings is refused
                if any(bss.attempt(lambda: fn(items[k].clone()))[1] for k in set(ids)):
                    check.count("one of the recordings is refused")
                    continue
                check.violation("raises", dict(d, error=err), b)
                break
            if not torch.equal(Z, keep):
                check.violation("input modified", d, b)
                break
            bad = False
            if tuple(got.shape[: len(shape)]) != tuple(shape):
                check.violation("batch shape", dict(d, got=list(got.shape)), b)
                break
            flat = got.reshape((len(ids),) + got.shape[len(shape):])
            for pos, k in enumerate(c["results"]):
                if k not in lone:
                    lone[k], err = bss.attempt(lambda: fn(items[k].clone()))
                    if err and "singular" in err:
                        check.count("singular alone")
                        lone.pop(k)
                        continue
                    if err:
                        check.violation("a recording is refused alone but not in a batch", dict(d, item=k, error=err), b)
                        bad = True
                        break
                check.comparisons += 1
                e = rel_err(flat[pos], lone[k])
                # a silent recording may have no finite result of its own
                if e == float("inf") and flat[pos].shape == lone[k].shape and torch.equal(torch.isnan(torch.view_as_real(flat[pos]) if flat[pos].is_complex() else flat[pos]), torch.isnan(torch.view_as_real(lone[k]) if lone[k].is_complex() else lone[k])):
                    check.count("not finite alone either")
                    continue
                if e > 1e-6:
                    check.violation("depends on the rest of the batch", dict(d, position=pos, item=k, error=e), b)
                    bad = True
                    break
                check.max_err = max(check.max_err, e)
            if bad:
                break
        check.sample({"comp": comp, "variant": v, "done": b[-1]["done"]})


if __name__ == "__main__":
    main_of(run, "C11")
