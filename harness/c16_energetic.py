import itertools
import random

import torch

from core import SEED, TIER, T, main_of, run_quint
import bss
from bss import tv

PERMS = list(itertools.permutations(range(3)))


def run(check):
    n = 800 if TIER == "quick" else 8000
    for i, b in enumerate(run_quint(check, "energetic", n, 24, invariants=["strongest", "ordered"])):
        cfg = b[0]["cfg"]
        rng = random.Random(SEED * 1000003 + i)
        x = T(b[0]["x"])  # group, chan, time
        pw = x.abs().square().sum(-1)
        if any(len(set(row.tolist())) < cfg["chans"] for row in pw):
            check.count("skipped: equal powers")
            continue
        if not cfg["complex"]:
            x = x.real.clone()
        if rng.random() < 0.5:
            x = x.to(torch.complex64 if x.is_complex() else torch.float32)
        ch = torch.tensor(b[-1]["chosen"])
        want = torch.stack([x[g][ch[g]] for g in range(cfg["groups"])])
        perm = PERMS[cfg["perm"]] if rng.random() < 0.6 else (0, 1, 2)
        xp, wp = x.permute(perm), want.permute(perm)
        if rng.random() < 0.5:
            xp = xp.contiguous()
        dim, red = perm.index(1), perm.index(2)
        if rng.random() < 0.5:
            dim, red = dim - 3, red - 3
        d = dict(cfg=cfg, dim=dim, dim_reduc=red, shape=list(xp.shape))
        keep = xp.clone()
        if perm == (0, 1, 2) and rng.random() < 0.7:
            out, err = bss.attempt(lambda: tv.select_most_energetic(xp, cfg["num"]))
        else:
            out, err = bss.attempt(lambda: tv.select_most_energetic(xp, num=cfg["num"], dim=dim, dim_reduc=red))
        check.traces += 1
        check.comparisons += 1
        check.sample({"cfg": cfg})
        if err:
            check.violation("raises", dict(d, error=err), b)
        elif not torch.equal(xp, keep):
            check.violation("input modified", d, b)
        elif out.shape != wp.shape or not torch.equal(out, wp):
            check.violation("selection", dict(d, got=list(out.shape)), b)


if __name__ == "__main__":
    main_of(run, "C16")
