import contextlib
import io
import random
import re

import torch

from core import SEED, TIER, R, T, main_of, run_quint
import bss
from bss import tv


def reported(check, b, kw):
    """With progress reports the result is the same and the objective is printed before and after every iteration."""
    X, text = T(b[0]["X"]), io.StringIO()
    spy = bss.Spy(b[0]["cfg"]["model"], [w for _, w in bss.model_calls(b)])
    torch.set_printoptions(precision=12)
    with contextlib.redirect_stdout(text):
        out, err = bss.attempt(lambda: tv.AuxIVA_IP(model=spy, **kw)(X, verbose=True))
    torch.set_printoptions(profile="default")
    d = dict(cfg=b[0]["cfg"], error=err)
    if err:
        check.violation("raises with progress reports", d, b)
        return
    floor = 1e-7 * float(X.abs().max())
    slack = lambda: bss.rounding(lambda m: tv.AuxIVA_IP(model=m, **kw), spy, X, None, lambda g, w: g, floor)
    if not bss.compare(check, "output with progress reports", b, out, T(b[-1]["out"]), 1e-6, d, floor, slack):
        return
    if b[0]["cfg"]["kind"] in (2, 3, 4):
        return  # channels without content: the volume in the objective is that of a singular matrix
    got = torch.tensor([float(v) for v in re.findall(r"[-+]?\d+\.\d*(?:e[-+]?\d+)?|nan|[-+]?inf", text.getvalue())], dtype=torch.float64)
    bss.compare(check, "objective reported", b, got, R(b[-1]["costs"]), 1e-5, dict(d, text=text.getvalue()), float(X.abs().max()))
    check.count("progress reports")


def run(check):
    n = 560 if TIER == "quick" else 2400
    behs = run_quint(check, "ip", n, 320, invariants=["estimateIsDemixed", "unitPower"])
    for i, b in enumerate(behs):
        cfg = b[0]["cfg"]
        rng = random.Random(SEED * 1000003 + i)
        kw = dict(n_iter=cfg["iters"], proj_back_mic=None if cfg["pb"] < 0 else cfg["pb"], eps=1.0 / cfg["epsDen"],
                  n_src=cfg["S"])
        if cfg["S"] == cfg["C"] and rng.random() < 0.5:
            kw["n_src"] = None
        bss.replay_separator(check, b, lambda spy: tv.AuxIVA_IP(model=spy, **kw), bss.model_calls(b),
                             T(b[-1]["out"]), rng=rng)
        if rng.random() < 0.4:
            reported(check, b, kw)
        check.sample({"cfg": cfg, "actions": [s.get("action") for s in b.states][:12]})


if __name__ == "__main__":
    main_of(run, "C02")
