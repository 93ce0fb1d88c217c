import random

import torch

from core import ONE, SEED, TIER, T, main_of, run_quint
import bss
from bss import tv

PQ = [(1.0, None), (0.5, None), (1.5, None), (1.0, 1.0), (1.0, 2.0), (0.75, 1.5), (0.5, 1.0), (1.5, 2.0), (0.5, 2.0)]


def run(check):
    import torchiva.scaling as sc
    import torchiva.parameters as par
    n = 2400 if TIER == "quick" else 9000
    for i, b in enumerate(run_quint(check, "scaling", n, 16, invariants=["distortionFalls", "orthogonal", "reproduces", "keepsMagnitude"])):
        cfg, st = b[0]["cfg"], b[-1]
        rng = random.Random(SEED * 1000003 + i)
        if st["phase"] != "done":
            continue
        op = cfg["op"]
        Y, ref, want = T(b[0]["Y"]), T(b[0]["ref"]), T(st["out"])
        p, q = PQ[cfg["pq"]]
        rtol = 1.0 / cfg["rtol"] if cfg["rtol"] else 0.0
        bk, lk = rng.choice(bss.BATCHES), rng.choice(bss.LAYOUTS)
        tol = 1e-6
        if op == "md" and rtol > 0:
            # the stopping rule looks at the whole batch
            bk = rng.choice(["single", "one"])
            ds = [s["delta"] / ONE for s in b.states if s.get("action") == "stop"]
            if any(abs(x / rtol - 1) < 1e-4 for x in ds):
                check.count("stopping rule undecided by rounding")
                continue
            if any(s.get("action") == "stop" and s["epoch"] > 1 and float(T(s["prev"]).abs().max()) < 1e-12 for s in b.states):
                check.count("stopping rule divides by zero")
                continue
        if op == "pb":
            if st["gap"] / ONE < 1e-6 * float(Y.abs().max()):
                check.count("equally strong frames")
                continue
            A = torch.stack([Y[:, f, st["frames"]] for f in range(cfg["nf"])])
            tol = 1e-6 + 1e-4 / float(torch.linalg.svdvals(A).min())
            if tol > 1e-2:
                check.count("badly conditioned projection")
                continue
        Yb, pick = bss.batch_variant(Y, random.Random(i), bk)
        Rb, _ = bss.batch_variant(ref, random.Random(i + 1), bk)
        Yb, Rb = bss.layout(Yb, lk), bss.layout(Rb, rng.choice(bss.LAYOUTS))
        k0, k1 = Yb.clone(), Rb.clone()
        old = dict(par.eps_scaling)
        par.eps_scaling.update(mdp=1.0 / cfg["mdpDen"], gmdp=1.0 / cfg["gmdpDen"])
        d = dict(op=op, cfg=cfg, p=p, q=q, batch=bk, layout=lk)
        try:
            got, err = bss.attempt({
                "pb": lambda: tv.projection_back(Yb, Rb),
                "l2": lambda: sc.minimum_distortion_l2(Yb, Rb),
                "md2": lambda: tv.minimum_distortion(Yb, Rb, *rng.choice([(), (2.0,), (2.0, 2.0)])),
                "phase": lambda: tv.minimum_distortion_l2_phase(Yb, Rb),
                "md": lambda: tv.minimum_distortion(Yb, Rb, p=p, q=q, rtol=rtol, max_iter=cfg["maxIter"]),
            }[op])
        finally:
            par.eps_scaling.update(old)
        check.traces += 1
        check.count(op if op != "md" else f"md p={p} q={q}")
        check.sample({"cfg": cfg})
        if err:
            check.violation("raises", dict(d, error=err), b)
            continue
        if not torch.equal(Yb, k0) or not torch.equal(Rb, k1):
            check.violation("input modified", d, b)
            continue
        if got.dtype != Y.dtype:
            check.violation("output dtype", dict(d, got=str(got.dtype)), b)
            continue
        bss.compare(check, "value", b, pick(got), want, tol, d, 1e-7 * max(float(Y.abs().max()), 1e-9))


if __name__ == "__main__":
    main_of(run, "C14")
