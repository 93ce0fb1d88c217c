import random

from core import SEED, TIER, T, main_of, run_quint
import bss
from bss import tv


def run(check):
    n = 800 if TIER == "quick" else 4000
    for i, b in enumerate(run_quint(check, "ip2", n, 60, invariants=["imagesAddUp"])):
        cfg = b[0]["cfg"]
        rng = random.Random(SEED * 1000003 + i)
        kw = dict(n_iter=cfg["iters"], proj_back_mic=None if cfg["pb"] < 0 else cfg["pb"], eps=1.0 / cfg["epsDen"])
        bss.replay_separator(check, b, lambda spy: tv.AuxIVA_IP2(model=spy, **kw), bss.model_calls(b),
                             T(b[-1]["out"]), rng=rng)
        check.sample({"cfg": cfg, "actions": [s.get("action") for s in b.states][:12]})


if __name__ == "__main__":
    main_of(run, "C03")
