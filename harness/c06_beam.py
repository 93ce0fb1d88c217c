import random

import torch

from core import SEED, TIER, R, T, main_of, run_quint
import bss
from bss import tv


class Masks(torch.nn.Module):
    def __init__(self, table):
        super().__init__()
        self.table = table
        self.seen = []

    def forward(self, x):
        self.seen.append(x.detach().clone())
        m = self.table.to(x.real.dtype)
        return m.broadcast_to(x.shape[:-2] + m.shape).clone()


def build(cfg, spy):
    eps = 1.0 / cfg["epsDen"]
    if cfg["kind"] in ("rtf", "scm"):
        return tv.MVDRBeamformer(spy, ref_mic=cfg["ref"], eps=eps, mvdr_type=cfg["kind"],
                                 n_power_iter=None if cfg["pow"] < 0 else cfg["pow"])
    if cfg["kind"] in ("mwf", "mwft"):
        return tv.MWFBeamformer(spy, ref_mic=cfg["ref"], eps=eps, time_invariant=cfg["kind"] == "mwf")
    return tv.GEVBeamformer(spy, ref_mic=cfg["ref"], eps=eps)


def functions(check, b, cfg, rng, freqs, d):
    """The weight functions, given the covariance matrices of the specification, against its weights, state by state."""
    bf = tv.beamformer
    last = b[-1]
    cov = T(last["cov"])[:, :, freqs]
    cov = [cov[:, m] for m in range(cov.shape[1])]
    at = None
    if rng.random() < 0.5:
        # two recordings, the specification's is one of them
        at = rng.randrange(2)
        other = [c.conj().flip(0) * rng.choice([0.3, 2.0]) + 0.1 * torch.eye(c.shape[-1]) for c in cov]
        cov = [torch.stack([o, c] if at else [c, o]) for c, o in zip(cov, other)]
    cov = torch.stack(cov)
    eps, ref, p = 1.0 / cfg["epsDen"], cfg["ref"], None if cfg["pow"] < 0 else cfg["pow"]

    def given(call, want, what, arrange=lambda y: y):
        keep = cov.clone()
        mine = (lambda Z: arrange(call(Z))) if at is None else (lambda Z: arrange(call(Z)[at]))
        out, err = bss.attempt(lambda: mine(cov))
        if err:
            check.violation(what, dict(d, error=err), b)
        elif not torch.equal(cov, keep):
            check.violation("a weight function modifies the covariance matrices", dict(d, what=what), b)
        else:
            floor = 1e-7 * float(want.abs().max())
            bss.compare(check, what, b, out, want, 1e-6, d, floor, lambda: bss.moved(mine, cov, floor))

    check.count("weight functions")
    w = T(last["bf"])[:, freqs, 0] if cfg["kind"] != "mwft" else None
    if cfg["kind"] == "rtf":
        h = T(last["rtf"])[:, freqs]
        nz = 2 if cfg["masks"] == 3 else 1
        given(lambda c: bf.compute_mvdr_rtf_eigh(c[0], c[nz], ref_mic=ref, power_iterations=p), h, "transfer function of given covariances")
        hb = h if at is None else torch.stack([h, h])
        given(lambda c: bf.compute_mvdr_bf(c[1], hb, eps=eps), w, "MVDR weights of given covariances")
    elif cfg["kind"] == "scm":
        given(lambda c: bf.compute_mvdr_bf2(c[0], c[1], ref_mic=ref), w, "MVDR weights of given covariances")
    elif cfg["kind"] == "gev":
        given(lambda c: bf.compute_gev_bf(c[0], c[1], ref_mic=ref), w, "GEV weights of given covariances", lambda y: y.conj().transpose(-3, -2))
    elif cfg["kind"] == "mwf":
        given(lambda c: bf.compute_mwf_bf(c[0], c[1], eps=eps, ref_mic=ref), w, "MWF weights of given covariances")
        given(lambda c: bf.compute_mwf_bf(c[0], c[1], eps=eps), T(last["every"])[:, freqs], "MWF weights for every reference")


def run(check):
    n = 560 if TIER == "quick" else 3600
    for i, b in enumerate(run_quint(check, "beam", n, 8,
                                    invariants=["distortionless", "singleMicrophone", "gevMaximal", "oneOfEvery"])):
        cfg = b[0]["cfg"]
        rng = random.Random(SEED * 1000003 + i)
        freqs = bss.repetition(cfg["F"], rng) if rng.random() < 0.2 else list(range(cfg["F"]))
        X = T(b[0]["X"])[..., freqs, :]
        want = T(b[-1]["out"])[..., freqs, :]
        floor = 1e-7 * float(X.abs().max())
        bk, lk = rng.choice(bss.BATCHES if len(freqs) < 10 else ["single", "last"]), rng.choice(bss.LAYOUTS)
        Xb, pick = bss.batch_variant(X, rng, bk)
        Xb = bss.layout(Xb, lk)
        keep = Xb.clone()
        spy = Masks(R(b[0]["M"])[..., freqs, :])
        d = dict(cfg=cfg, batch=bk, layout=lk)
        out, err = bss.attempt(lambda: build(cfg, spy)(Xb))
        check.traces += 1
        check.count(f"kind {cfg['kind']} masks {cfg['masks']}")
        check.sample({"cfg": cfg, "actions": [s.get("action") for s in b.states]})
        if err:
            check.violation("raises", dict(d, error=err), b)
            continue
        if not torch.equal(Xb, keep):
            check.violation("input modified", d, b)
            continue
        if len(spy.seen) != 1:
            check.violation("number of mask model calls", dict(d, got=len(spy.seen)), b)
            continue
        bss.compare(check, "the mask model is shown the reference channel", b, pick(spy.seen[0]), X[cfg["ref"]], 1e-12, d, floor)
        masks = R(b[0]["M"])[..., freqs, :]
        bss.compare(check, "output", b, pick(out), want, 1e-6, d, floor,
                    lambda: bss.moved(lambda Z: build(cfg, Masks(masks))(Z), X, floor))
        if rng.random() < 0.5:
            functions(check, b, cfg, rng, freqs, d)


if __name__ == "__main__":
    main_of(run, "C06")
