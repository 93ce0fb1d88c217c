import random
import shutil

import torch

from core import ONE, SEED, SPEC, TIER, MachineryError, R, T, main_of, run_quint
import core
import bss
from bss import tv

KIND = {"laplace": "LaplaceModel", "gauss": "GaussModel", "nmf": "NMFModel"}


def fx(x):
    """The exact fixed point value of a double."""
    num, den = float(x).as_integer_ratio()
    return num * ONE // den


def mat(M):
    return "[" + ", ".join("[" + ", ".join(str(fx(x)) for x in row) + "]" for row in M.tolist()) + "]"


def set_factors(m, Tm, Vm):
    """Put the low-rank model into the specification's state, if it keeps it the way it does today."""
    if not (torch.is_tensor(getattr(m, "T", None)) and torch.is_tensor(getattr(m, "V", None)) and hasattr(m, "_recompute_estimate")):
        return False
    if m.T.shape != Tm.shape or m.V.shape != Vm.shape:
        return False
    m.T, m.V = Tm.clone(), Vm.clone()
    m._recompute_estimate()
    return True


def replay(check):
    n = 560 if TIER == "quick" else 5000
    for i, b in enumerate(run_quint(check, "models", n, 20, invariants=["bounded", "flat", "factorsBounded"], init="init2")):
        cfg = b[0]["cfg"]
        rng = random.Random(SEED * 1000003 + i)
        single = cfg["kind"] != "nmf" and rng.random() < 0.3
        kw = {"eps": 1.0 / cfg["epsDen"]}
        if cfg["kind"] == "nmf":
            kw["n_basis"] = cfg["K"]
        if cfg["epsDen"] == 100000 and rng.random() < 0.5:
            del kw["eps"]  # the default
        m = getattr(tv, KIND[cfg["kind"]])(**kw)
        lk = rng.choice(bss.LAYOUTS)
        deep = rng.random() < 0.3  # more batch dimensions
        check.count(cfg["kind"])
        fresh = True
        check.traces += 1
        for s in b.states:
            d = dict(cfg=s["cfg"], layout=lk, call=s["calls"])
            if s.get("action") == "reset":
                if hasattr(m, "reset"):
                    m.reset()
                fresh = True
            elif s.get("action") == "ask":
                X = T(s["X"])
                if not cfg["cplx"]:
                    X = X.real.clone()
                if single:
                    X = X.to(torch.complex64 if cfg["cplx"] else torch.float32)
                X = bss.layout(X, lk)
                if deep:
                    X = X[None]
                if cfg["kind"] == "nmf" and fresh:
                    _, err = bss.attempt(lambda: m(X))
                    if err:
                        check.violation("raises", dict(d, error=err), b)
                        break
                    if not set_factors(m, R(s["Tm"]), R(s["Vm"])):
                        check.count("state of the low-rank model not accessible")
                        break
                fresh = False
            elif s.get("action") == "answer":
                keep = X.clone()
                got, err = bss.attempt(lambda: m(X))
                if err:
                    check.violation("raises", dict(d, error=err), b)
                    break
                if not torch.equal(keep, X):
                    check.violation("input modified", d, b)
                    break
                want = R(s["out"])
                if got.is_complex() or got.dtype != (torch.float32 if single else torch.float64):
                    check.violation("output dtype", dict(d, got=str(got.dtype)), b)
                    break
                if not bss.compare(check, "weights", b, got[0] if deep else got, want, 1e-4 if single else 1e-7, d):
                    break
                if cfg["kind"] == "laplace" and not single:
                    # the cost of the model: mean over time of the frame norms, summed over signals
                    Y = T(s["X"])
                    c = Y.abs().square().sum(-2).sqrt().mean(-1).sum(-1)
                    gc, err = bss.attempt(lambda: m.cost(X))
                    if err:
                        check.violation("cost raises", dict(d, error=err), b)
                        break
                    if not bss.compare(check, "cost", b, gc, c[None] if deep else c, 1e-9, d, 1e-9):
                        break
        check.sample({"cfg": cfg})


def traces(check):
    """Calls of the low-rank model from its own random start, recorded and checked by the specification."""
    runs, infos = [], []
    n = 40 if TIER == "quick" else 300
    rng = random.Random(SEED * 77)
    for i in range(n):
        K = rng.choice([1, 1, 2, 3])
        nb, nf, nn = rng.randint(1, 3), rng.randint(1, 6), rng.randint(1, 6)
        same = rng.random() < 0.6
        torch.manual_seed(SEED * 1000 + i)
        m = tv.NMFModel(n_basis=K, eps=1e-12)
        recs = [[] for _ in range(nb)]
        X = None
        bad = False
        for c in range(5):
            if c == 3 and rng.random() < 0.3:
                m.reset()  # a new signal: a new run begins
                for r in recs:
                    if len(r) > 0:
                        runs.append((K, same, r))
                        infos.append(dict(i=i, K=K, nb=nb, nf=nf, nn=nn, same=same))
                recs = [[] for _ in range(nb)]
            if X is None or not same:
                # bounded away from zero: the divergence of an empty bin is infinite
                X = torch.tensor([[[complex(rng.choice([-1, 1]) * rng.randint(1, 9), rng.randint(-9, 9)) for _ in range(nn)] for _ in range(nf)] for _ in range(nb)], dtype=torch.complex128)
            got, err = bss.attempt(lambda: m(X))
            check.comparisons += 1
            if err or got.shape != X.shape or got.is_complex() or not bool((got > 0).all()) or not bool(torch.isfinite(got).all()):
                check.violation("low-rank weights", dict(i=i, K=K, call=c, error=err), None)
                bad = True
                break
            for k in range(nb):
                recs[k].append((X[k].abs().square(), got[k].reciprocal()))
        if not bad:
            for r in recs:
                runs.append((K, same, r))
                infos.append(dict(i=i, K=K, nb=nb, nf=nf, nn=nn, same=same))
    src = core.Path(check.scratch) / "nmf"
    src.mkdir()
    for f in ("fx", "elem", "nmf", "nmftrace"):
        shutil.copyfile(SPEC / f"{f}.qnt", src / f"{f}.qnt")
    txt = ",\n".join("{ K: %d, same: %s, P: [%s], R: [%s] }" % (K, str(same).lower(), ", ".join(mat(p) for p, _ in r), ", ".join(mat(x) for _, x in r)) for K, same, r in runs)
    (src / "nmfdata.qnt").write_text("module nmfdata {\n  pure val RUNS: List[{ K: int, same: bool, P: List[List[List[int]]], R: List[List[List[int]]] }] = [\n" + txt + "\n  ]\n}\n")
    total = sum(len(r) for _, _, r in runs)
    old = core.SPEC
    core.SPEC = src
    try:
        b = run_quint(check, "nmftrace", 1, total + 2, procs=1)[0]
    finally:
        core.SPEC = old
    last = b[-1]
    if last["checked"] != total:
        raise MachineryError(f"only {last['checked']} of {total} recorded calls were checked")
    check.traces += len(runs)
    check.count("recorded calls of the low-rank model checked", total)
    for r, c, what in last["bad"]:
        check.violation("low-rank model: " + what, dict(infos[r], call=c), None)


def run(check):
    replay(check)
    traces(check)


if __name__ == "__main__":
    main_of(run, "C13")
