import random

from core import SEED, TIER, T, main_of, run_quint
import bss
from bss import tv


def run(check):
    n = 560 if TIER == "quick" else 2400
    for i, b in enumerate(run_quint(check, "five", n, 60, invariants=["whitened", "leastSquaresImage"])):
        cfg = b[0]["cfg"]
        rng = random.Random(SEED * 1000003 + i)
        kw = dict(n_iter=cfg["iters"], proj_back_mic=None if cfg["pb"] < 0 else cfg["pb"],
                  n_power_iter=None if cfg["pow"] < 0 else cfg["pow"])
        calls = [(y[0], w[0]) for y, w in bss.model_calls(b)]
        bss.replay_separator(check, b, lambda spy: tv.FIVE(model=spy, **kw), calls, T(b[-1]["out"]), rng=rng,
                             align=bss.align_phase if cfg["pb"] < 0 else None, first=1)
        check.sample({"cfg": cfg, "actions": [s.get("action") for s in b.states][:12]})


if __name__ == "__main__":
    main_of(run, "C04")
