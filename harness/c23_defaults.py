"""A parameter that is left out has its documented default."""
import ast
import random
import sys

import torch

from core import SEED, TIER, main_of, run_quint, verify_exhaustive
import bss
from bss import tv
import session as ss

SEP = ("T_ISS", "AuxIVA_IP", "AuxIVA_IP2", "FIVE", "WPE")
BEAM = ("MVDRBeamformer", "MWFBeamformer", "GEVBeamformer")
# keyword order of the constructor is part of the interface
POSITIONAL = ("T_ISS", "AuxIVA_IP", "AuxIVA_IP2", "FIVE", "MVDRBeamformer", "MWFBeamformer", "GEVBeamformer", "STFT", "LaplaceModel", "GaussModel",
              "NMFModel", "select_most_energetic", "fftconvolve", "divide", "inv_2x2", "solve_loaded")


def literal(v, chans):
    if v == "$C":
        return chans
    if v == "$laplace":
        return tv.models.LaplaceModel()
    if v == "$gauss":
        return tv.models.GaussModel()
    if v == "$soft":
        return tv.models.GaussModel(eps=0.3)
    if v == "$wpe":
        return None
    if v == "$wpe1":
        return ss.WpeWeights(1.0)
    if v == "$quarter":
        return 4
    if v == "$mels" or v == "$p":
        return v
    try:
        return ast.literal_eval(v)
    except (ValueError, SyntaxError):
        return v


def spec_input(g, shape, level):
    return torch.view_as_complex(torch.randn(shape + (2,), generator=g, dtype=torch.float64)) * level


def use(comp, args, kw, inputs, seed, call={}):
    """The results of a sequence of uses of one object (or of calls of one function)."""
    out = []
    torch.manual_seed(seed)
    if comp in SEP:
        obj = getattr(tv, comp)(*args, **kw)
        C = 2 if comp == "AuxIVA_IP2" else 3
        for g, lev in inputs:
            out.append(obj(spec_input(g, (C, 3, 24), lev), **call))
    elif comp in BEAM:
        m = ss.Masks({"MVDRBeamformer": 2 + seed % 2, "MWFBeamformer": 4, "GEVBeamformer": 2}[comp], 1.0)
        obj = getattr(tv, comp)(m, *args, **kw)
        for g, lev in inputs:
            out.append(obj(spec_input(g, (3, 3, 24), lev), **call))
    elif comp == "STFT":
        obj = tv.STFT(16, *args, **kw)
        for g, lev in inputs:
            X = obj(torch.randn((2, 70), generator=g))
            out += [X, obj.inv(X)]
    elif comp == "BSSSeparator":
        obj = tv.nn.BSSSeparator(16, *args, **kw)
        for g, lev in inputs:
            out.append(obj(torch.randn((2, 150), generator=g) * lev))
    elif comp in ("LaplaceModel", "GaussModel", "NMFModel"):
        obj = getattr(tv.models, comp)(*args, **kw)
        for g, lev in inputs:
            X = spec_input(g, (2, 3, 9), lev)
            X[..., 4] *= 1e-6
            out.append(obj(X))
    elif comp in ("GLUMask", "BLSTMMask", "MaskMVDRSupport", "SimpleModel"):
        if comp == "SimpleModel":
            F = kw.get("n_freq", 257)
            obj = tv.models.SimpleModel(**kw)
        elif comp == "MaskMVDRSupport":
            F = 5
            obj = tv.models.MaskMVDRSupport(n_input=F, **kw)
        else:
            F = 5 if comp == "GLUMask" else 33
            obj = getattr(tv.models, comp)(F, 6, **kw)
        for i, (g, lev) in enumerate(inputs):
            # dropout and batch statistics in the first use
            obj.train(i == 0)
            X = spec_input(g, (2, F, 6), lev).to(torch.complex64)
            with torch.no_grad():
                out.append(obj(X))
        out += list(obj.state_dict().values())
    elif comp == "minimum_distortion":
        for g, lev in inputs:
            out.append(tv.minimum_distortion(spec_input(g, (2, 3, 12), lev), spec_input(g, (3, 12), 1.0), *args, **kw))
    elif comp == "select_most_energetic":
        for g, lev in inputs:
            out.append(tv.select_most_energetic(torch.randn((2, 3, 4, 5), generator=g), 2, *args, **kw))
    elif comp == "fftconvolve":
        for g, lev in inputs:
            out.append(tv.fftconvolve(torch.randn((4, 3, 6), generator=g), torch.randn((4, 3, 6), generator=g)[..., :, :], *args, **kw)
                       if kw.get("dim", -1) == -1 and len(args) < 2 else
                       tv.fftconvolve(torch.randn((5, 5, 5), generator=g), torch.randn((5, 5, 5), generator=g), *args, **kw))
    elif comp in ("solve_loaded", "solve_loaded_general"):
        for g, lev in inputs:
            A, c = spec_input(g, (2, 3, 3), lev), spec_input(g, (2, 3, 1), 1.0)
            A[0] *= 1e-5
            out.append(getattr(tv.linalg, comp)(A, c, *args, **kw))
    elif comp == "inv_loaded":
        for g, lev in inputs:
            out.append(tv.linalg.inv_loaded(spec_input(g, (2, 3, 3), lev * 1e-3), *args, **kw))
    elif comp == "inv_2x2":
        for g, lev in inputs:
            out.append(tv.linalg.inv_2x2(spec_input(g, (4, 2, 2), lev) * torch.tensor([1.0, 1e-2, 1e-4, 1e-6])[:, None, None], *args, **kw))
    elif comp == "divide":
        for g, lev in inputs:
            eps = (args + (kw.get("eps", 1.0),))[0]
            least = 1e-20 if eps < 1e-20 else 0.0
            out.append(tv.linalg.divide(torch.randn(4, generator=g), torch.rand(4, generator=g) * torch.tensor([1.0, 1e-3, 1e-9, least]), *args, **kw))
    elif comp == "hermite":
        for g, lev in inputs:
            out.append(tv.linalg.hermite(spec_input(g, (3, 3, 3), lev), *args, **kw).clone())
    elif comp == "instantiate":
        m = tv.utils.instantiate("torchiva.models.NMFModel", *args, **kw)
        for g, lev in inputs:
            X = spec_input(g, (2, 3, 9), lev)
            X[..., 4] *= 1e-6
            out.append(m(X))
            m.reset()
    return out


def parser_use(kw):
    import torchiva.separate as sep
    argv = ["in", "out"]
    for k, v in kw.items():
        argv += [k, str(v)]
    return vars(sep.get_parser().parse_args(argv))


def run(check):
    verify_exhaustive(check, "defaults", ["leftOutIsDefault", "givenCounts"], main="defaultsSmall")
    n = 900 if TIER == "quick" else 9000
    for i, b in enumerate(run_quint(check, "defaults", n, 16, invariants=["leftOutIsDefault", "givenCounts"], main="defaultsFull")):
        comp, st = b[0]["comp"], b[-1]
        if not st["values"]:
            continue
        rng = random.Random(SEED * 1000003 + i)
        names = PARS[comp]
        assert len(names) == len(st["values"]), comp
        C = 2 if comp in ("AuxIVA_IP2", "BSSSeparator") else 3
        seed = rng.randrange(1 << 20)
        lev = [rng.choice([1.0, 1e-2, 1e-4]) for _ in st["uses"]]
        full = {p: literal(v, C) for p, v in zip(names, st["values"])}
        if full.get("n_hidden") == "$mels":
            full["n_hidden"] = full["n_mels"]
        if full.get("q") == "$p":
            full["q"] = full["p"]
        if comp == "minimum_distortion" and full["q"] < full["p"]:
            continue
        if comp == "AuxIVA_IP2" or comp == "BSSSeparator":
            for p in ("proj_back_mic", "n_src"):
                if p in full:
                    full[p] = min(full[p], C - 1 if p == "proj_back_mic" else C)
        part = {p: full[p] for p, g in zip(names, st["given"]) if g >= 0}
        d = dict(component=comp, given={k: str(v) for k, v in part.items()}, values=st["values"], level=lev)
        check.count(comp)
        check.traces += 1
        check.sample({"component": comp, "given": st["given"]})
        if comp == "separate":
            a, err = bss.attempt(lambda: parser_use(part))
            w, err2 = bss.attempt(lambda: parser_use(full))
            check.comparisons += 1
            if err or err2 or a != w:
                check.violation("options", dict(d, got=str(a), want=str(w), error=err or err2), b)
            continue
        order = list(part)
        rng.shuffle(order)
        kw = {p: part[p] for p in order}
        args = ()
        if b[0]["order"] == 0 and comp in POSITIONAL:
            k = 0
            while k < len(names) and st["given"][k] >= 0:
                k += 1
            args = tuple(full[p] for p in names[:k])
            kw = {p: v for p, v in kw.items() if p not in names[:k]}

        def gens():
            return [(torch.Generator().manual_seed(seed + 31 * u), lv) for u, lv in zip(st["uses"], lev)]
        got, err = bss.attempt(lambda: use(comp, args, kw, gens(), seed))
        # a reference that goes another way: values given to the calls, or zeros replaced by next to nothing
        call = {}
        if comp in SEP + BEAM and rng.random() < 0.5:
            call = {p: v for p, v in full.items() if v is not None}
        late = {p: v for p, v in full.items() if p not in call}
        if comp not in SEP + BEAM:
            late = {p: 1e-30 if isinstance(v, float) and v == 0 else v for p, v in late.items()}
        want, err2 = bss.attempt(lambda: use(comp, (), late, gens(), seed, call))
        if err2:
            check.violation("raises with explicit defaults", dict(d, error=err2), b)
            continue
        if err:
            check.violation("raises", dict(d, error=err), b)
            continue
        if len(got) != len(want):
            check.violation("parameters of the model", dict(d, got=len(got), want=len(want)), b)
            continue
        for x, y in zip(got, want):
            if not bool(y.isfinite().all()):
                # without any bound there may be divisions by zero
                check.count("not finite with an eps of zero" if full.get("eps") == 0 else "not finite")
                if x.shape == y.shape and torch.equal(x.isfinite(), y.isfinite()):
                    break
            if torch.equal(torch.nan_to_num(x), torch.nan_to_num(y)) if x.shape == y.shape and not x.is_complex() else False:
                check.comparisons += 1
                continue
            if not bss.compare(check, "default", b, x, y, 1e-9, d):
                break


PARS = {
    "T_ISS": ["n_iter", "n_taps", "n_delay", "n_src", "model", "proj_back_mic", "use_dmc", "eps"],
    "AuxIVA_IP": ["n_iter", "n_src", "model", "proj_back_mic", "eps"],
    "AuxIVA_IP2": ["n_iter", "model", "proj_back_mic", "eps"],
    "FIVE": ["n_iter", "model", "proj_back_mic", "eps", "n_power_iter"],
    "WPE": ["n_iter", "n_taps", "n_delay", "model", "eps"],
    "MVDRBeamformer": ["ref_mic", "eps", "mvdr_type", "n_power_iter"],
    "MWFBeamformer": ["ref_mic", "eps", "time_invariant"],
    "GEVBeamformer": ["ref_mic", "eps"],
    "STFT": ["hop_length", "window"],
    "BSSSeparator": ["n_iter", "hop_length", "window", "n_taps", "n_delay", "n_src", "algo", "source_model", "proj_back_mic", "use_dmc", "n_power_iter", "eps"],
    "LaplaceModel": ["eps"], "GaussModel": ["eps"], "NMFModel": ["n_basis", "eps"],
    "GLUMask": ["pool_size", "kernel_size", "dropout_p", "mag_spec", "log_spec", "n_sublayers"],
    "BLSTMMask": ["n_hidden", "dropout_p", "mag_spec", "log_spec"],
    "MaskMVDRSupport": ["n_src", "n_masks", "n_hidden", "dropout_p", "n_layers", "eps"],
    "SimpleModel": ["n_freq", "n_mels", "n_hidden", "eps"],
    "minimum_distortion": ["p", "q", "rtol", "max_iter"],
    "select_most_energetic": ["dim", "dim_reduc"],
    "fftconvolve": ["mode", "dim"],
    "solve_loaded": ["load"], "solve_loaded_general": ["load", "eps"], "inv_loaded": ["load"], "inv_2x2": ["eps"], "divide": ["eps"],
    "hermite": ["dim1", "dim2"],
    "instantiate": ["args", "kwargs"],
    "separate": ["--mic", "--src", "--device", "--nfft", "--n_iter", "--taps", "--delay", "--ref", "--model-type", "--model-path", "--n-basis"],
}

if __name__ == "__main__":
    main_of(run, "C23")
