import random

import torch

from core import SEED, TIER, R, T, main_of, run_quint
import bss
from bss import tv


class Weights(torch.nn.Module):
    def __init__(self, tables):
        super().__init__()
        self.tables = tables
        self.seen = []

    def forward(self, Y):
        self.seen.append(Y.detach().clone())
        w = self.tables[min(len(self.seen), len(self.tables)) - 1].to(Y.real.dtype)
        return w.broadcast_to(Y.shape[:-3] + w.shape).clone()


def run(check):
    n = 560 if TIER == "quick" else 2400
    for i, b in enumerate(run_quint(check, "wpe", n, 60, invariants=["directUntouched", "powerReduced"])):
        cfg = b[0]["cfg"]
        rng = random.Random(SEED * 1000003 + i)
        X = T(b[0]["X"])
        freqs = bss.repetition(cfg["F"], rng) if rng.random() < 0.2 else list(range(cfg["F"]))
        X = X[..., freqs, :]
        floor = 1e-7 * float(X.abs().max())
        # estimates after 0, 1, 2... iterations
        ys = [X] + [T(s["Y"])[..., freqs, :] for s in b.states if s.get("action") == "updateFilter"]
        ws = [R(s["wt"])[..., freqs, :] for s in b.states if s.get("action") == "estimateWeights"]
        kw = dict(n_taps=cfg["taps"], n_delay=cfg["delay"], eps=1.0 / cfg["epsDen"])
        check.sample({"cfg": cfg, "actions": [s.get("action") for s in b.states][:12]})
        for k in range(len(ys)):
            bk, lk = rng.choice(bss.BATCHES if len(freqs) < 10 else ["single", "last"]), rng.choice(bss.LAYOUTS)
            Xb, pick = bss.batch_variant(X, rng, bk)
            Xb = bss.layout(Xb, lk)
            keep = Xb.clone()
            spy = Weights(ws) if cfg["model"] == "table" else None
            d = dict(cfg=cfg, iterations=k, batch=bk, layout=lk)
            out, err = bss.attempt(lambda: tv.WPE(n_iter=k, model=spy, **kw)(Xb))
            check.traces += 1
            if err:
                check.violation("raises", dict(d, error=err), b)
                break
            if not torch.equal(Xb, keep):
                check.violation("input modified", d, b)
                break
            if not bss.compare(check, "output", b, pick(out), ys[k], 1e-6, d, floor):
                break
            first = min(cfg["delay"] + 1, cfg["N"])
            if not bss.compare(check, "first frames untouched", b, pick(out)[..., :first], X[..., :first], 1e-12, d,
                               floor):
                break
            if spy is not None:
                if len(spy.seen) != k:
                    check.violation("number of weight model calls", dict(d, got=len(spy.seen)), b)
                    break
                for j, y in enumerate(spy.seen):
                    bss.compare(check, "estimate shown to the weight model", b, pick(y), ys[j], 1e-6, d, floor)


if __name__ == "__main__":
    main_of(run, "C05")
