import random

from core import SEED, TIER, T, main_of, run_quint
import bss
from bss import tv


def run(check):
    n = 480 if TIER == "quick" else 2400
    behs = run_quint(check, "tiss", n, 320, invariants=["filterConsistent", "causal"])
    for i, b in enumerate(behs):
        cfg = b[0]["cfg"]
        rng = random.Random(SEED * 1000003 + i)
        want = T(b[-1]["out"])
        calls = bss.model_calls(b)
        use_dmc = rng.random() < 0.3
        kw = dict(n_iter=cfg["iters"], n_taps=cfg["taps"], n_delay=cfg["delay"], proj_back_mic=None if cfg["pb"] < 0 else cfg["pb"],
                  eps=1.0 / cfg["epsDen"], n_src=cfg["S"], use_dmc=use_dmc)
        if cfg["S"] == cfg["C"] and rng.random() < 0.5:
            kw["n_src"] = None
        def build(spy):
            return tv.T_ISS(model=spy, **kw)
        bss.replay_separator(check, b, build, calls, want, rng=rng, info=dict(dmc=use_dmc))
        check.sample({"cfg": cfg, "actions": [s.get("action") for s in b.states][:12]})


if __name__ == "__main__":
    main_of(run, "C01")
