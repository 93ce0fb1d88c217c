"""The neural mask estimators compute their network, for any parameters and input."""
import random
import warnings

import torch

from core import ONE, SEED, TIER, R, T, main_of, run_quint
import bss
from bss import tv


def names(cfg):
    k = cfg["kind"]
    bn = ["weight", "bias", "running_mean", "running_var"]

    def glu(layer, nsub):
        out = []
        for s in range(nsub):
            for part in ("lin", "gate"):
                out += [f"layers.{layer}.{part}_layers.{s}.{x}" for x in ("weight", "bias")]
                out += [f"layers.{layer}.{part}_bn_layers.{s}.{x}" for x in bn]
        return out

    def lstm(n):
        return [f"blstm.{x}_l{i}{suf}" for i in range(n) for suf in ("", "_reverse") for x in ("weight_ih", "weight_hh", "bias_ih", "bias_hh")]
    if k == "glu":
        return glu(0, 1) + glu(1, cfg["nsub"]) + glu(3, cfg["nsub"]) + ["layers.4.weight", "layers.4.bias"]
    if k == "blstm":
        return ["mel_layer.fb"] + lstm(3) + ["output_layer.weight", "output_layer.bias"]
    if k == "masks":
        return lstm(cfg["nl"]) + ["ff1.weight", "ff1.bias", "ff2.weight", "ff2.bias"]
    return ["mel_layer.fb", "hidden.weight", "hidden.bias", "output_mapping.weight", "output_mapping.bias"]


def build(cfg):
    k = cfg["kind"]
    if k == "glu":
        return tv.models.GLUMask(cfg["F"], cfg["B"], pool_size=cfg["pool"], kernel_size=cfg["K"], mag_spec=cfg["mag"], log_spec=cfg["logs"], n_sublayers=cfg["nsub"])
    if k == "blstm":
        return tv.models.BLSTMMask(cfg["F"], cfg["B"], n_hidden=cfg["H"], mag_spec=cfg["mag"], log_spec=cfg["logs"])
    if k == "masks":
        return tv.models.MaskMVDRSupport(n_input=cfg["F"], n_hidden=cfg["H"], n_layers=cfg["nl"], n_src=cfg["nsrc"], n_masks=cfg["nmask"], eps=1.0 / cfg["epsDen"])
    return tv.models.SimpleModel(cfg["F"], cfg["B"], n_hidden=cfg["H"], eps=1.0 / cfg["epsDen"])


def run(check):
    warnings.simplefilter("ignore")
    torch.set_default_dtype(torch.float64)
    n = 640 if TIER == "quick" else 6000
    for i, b in enumerate(run_quint(check, "neural", n, 10, invariants=["weightsInRange", "floorKept", "outShape", "complete"])):
        cfg, st = b[0]["cfg"], b[-1]
        rng = random.Random(SEED * 1000003 + i)
        if st["phase"] != "done":
            continue
        bk, lk = rng.choice(bss.BATCHES), rng.choice(bss.LAYOUTS)
        d = dict(cfg=cfg, batch=bk, layout=lk)
        check.traces += 1
        check.count(cfg["kind"])
        net, err = bss.attempt(lambda: build(cfg).double())
        if err:
            check.violation("construction raises", dict(d, error=err), b)
            continue
        own = net.state_dict()
        ks = names(cfg)
        new, bad = {}, None
        for k, vals in zip(ks, b[0]["par"]):
            if k not in own or own[k].numel() != len(vals):
                bad = k
                break
            new[k] = R(vals).reshape(own[k].shape)
        if bad is not None or set(own) - set(ks) != {k for k in own if k.endswith("num_batches_tracked")}:
            # saved models of this architecture could not be loaded any more
            check.violation("parameters of the architecture", dict(d, missing=bad, extra=sorted(set(own) - set(ks))[:5]), b)
            continue
        net.load_state_dict({**own, **new})
        net.eval()
        X = T(b[0]["X"])
        Xb, pick = bss.batch_variant(X, rng, bk)
        if not cfg["cplx"]:
            Xb = Xb.real.clone()
        Xb = bss.layout(Xb, lk)
        keep = Xb.clone()
        calls = 1 if rng.random() < 0.7 else 2
        for c in range(calls):
            with torch.set_grad_enabled(rng.random() < 0.5):
                got, err = bss.attempt(lambda: net(Xb))
            if err:
                check.violation("raises", dict(d, error=err), b)
                break
            if not torch.equal(Xb, keep):
                check.violation("input modified", d, b)
                break
            if any(not torch.equal(v, new.get(k, own[k])) for k, v in net.state_dict().items()):
                check.violation("parameters modified", d, b)
                break
            want = R(st["out"])
            if cfg["kind"] == "masks":
                want = want.reshape(cfg["nsrc"], cfg["nmask"], cfg["F"], cfg["T"])
            if got.is_complex() or not bss.compare(check, "weights", b, pick(got), want, 1e-7, dict(d, call=c), 1e-6):
                break
        check.sample({"cfg": cfg})


if __name__ == "__main__":
    main_of(run, "C21")
