"""Gradients: every backward pass adds the derivative of its forward pass."""
import random

import torch

from core import SEED, TIER, main_of, rel_err, run_quint, verify_exhaustive
import bss
from bss import tv
import session as ss


class Learned(torch.nn.Module):
    """A smooth source model with parameters."""

    def __init__(self):
        super().__init__()
        self.p0 = torch.nn.Parameter(torch.tensor([0.3], dtype=torch.float64))
        self.p1 = torch.nn.Parameter(torch.tensor(-0.2, dtype=torch.float64))

    def forward(self, Y):
        p = Y.real.square() + Y.imag.square()
        return 1.0 / (0.2 + self.p0.exp() * p.mean(dim=-2, keepdim=True) + self.p1.exp() * 0.3 * p)


class Noisy(Learned):
    """Draws random numbers in every evaluation, like dropout."""

    def forward(self, Y):
        return super().forward(Y) * (0.5 + torch.rand(Y.shape, dtype=torch.float64))


class LearnedFrames(Learned):
    def forward(self, Y):
        p = Y.real.square() + Y.imag.square()
        return 1.0 / (0.2 + self.p0.exp() * p.mean(dim=-3) + 0.1 * self.p1.exp())


class LearnedMasks(torch.nn.Module):
    def __init__(self, n):
        super().__init__()
        self.p0 = torch.nn.Parameter(torch.tensor([0.3], dtype=torch.float64))
        self.p1 = torch.nn.Parameter(torch.tensor(-0.2, dtype=torch.float64))
        self.n = n

    def forward(self, x):
        p = x.real.square() + x.imag.square()
        r = torch.sigmoid(self.p0 + self.p1 * (p - 1.0))
        one = torch.stack([r, 1.05 - r, r * (1.2 - r) + 0.1, 0.3 + 0 * r][: self.n], dim=-3)
        return torch.stack([one, 0.5 * one.flip(-3) + 0.1], dim=-4)


def component(comp, v, g):
    """(function(input, dmc) -> output, module with parameters or None, shape of the input, complex input, loss kind)"""
    import torchiva.scaling as sc
    C, F, N = [(2, 2, 10), (3, 2, 12), (2, 3, 9)][v % 3]
    mic = [0, 1, None][v % 3]
    it = 1 + v % 3
    batch = () if v < 3 else (2,)
    m = Noisy() if v in (1, 3) else Learned()
    cshape = batch + (C, F, N)
    if comp in ("tiss", "tissover", "tisstaps"):
        C = 3 if comp == "tissover" else C
        s = tv.T_ISS(n_iter=it, n_taps=(1 + v % 2) if comp != "tiss" else 0, n_delay=v % 2, n_src=(1 + v % 2) if comp == "tissover" else None, model=m,
                     proj_back_mic=[0, C - 1, None][v % 3])
        return (lambda X, d: s(X, use_dmc=d)), m, batch + (C, F, N), True, "plain"
    if comp == "ip":
        s = tv.AuxIVA_IP(n_iter=it, n_src=[None, 1][v % 2], model=m, proj_back_mic=[0, 1, None][v % 3])
        return (lambda X, d: s(X)), m, cshape, True, "power" if mic is None else "plain"
    if comp == "ip2":
        s = tv.AuxIVA_IP2(n_iter=it, model=m, proj_back_mic=mic)
        return (lambda X, d: s(X)), m, batch + (2, F, N), True, "power" if mic is None else "plain"
    if comp == "five":
        s = tv.FIVE(n_iter=it, model=m, proj_back_mic=[0, 1][v % 2], n_power_iter=[None, 2, None, None, 5, None][v % 6])
        return (lambda X, d: s(X)), m, cshape, True, "plain"
    if comp == "wpe":
        m = LearnedFrames()
        s = tv.WPE(n_iter=it, n_taps=1 + v % 2, n_delay=1 + v % 2, model=m)
        return (lambda X, d: s(X)), m, cshape, True, "plain"
    if comp in ("mvdr", "mwf", "gev"):
        m = LearnedMasks({"mvdr": 2 + v % 2, "mwf": 4, "gev": 2}[comp])
        kw = {"mvdr": dict(mvdr_type=["rtf", "scm"][v % 2], n_power_iter=[None, None, 2, None, 5, None][v % 6]), "mwf": dict(time_invariant=v % 2 == 0), "gev": {}}[comp]
        s = getattr(tv, ss.CLASSES[comp])(m, ref_mic=v % 2, **kw)
        return (lambda X, d: s(X)), m, cshape, True, "plain"
    if comp == "sep":
        s = {d: tv.nn.BSSSeparator(8, n_iter=it, hop_length=4, algo=["tiss", "ip2"][v % 2], n_taps=v % 3, n_delay=1, source_model=m, use_dmc=d) for d in (True, False)}
        return (lambda x, d: s[d](x)), m, batch + (2, 44), False, "plain"
    if comp == "stft":
        s = tv.STFT(8, hop_length=[4, 2][v % 2])
        return (lambda x, d: s(x)), None, batch + (2, 40), False, "plain"
    if comp == "istft":
        s = tv.STFT(8, hop_length=[4, 2][v % 2])
        return (lambda X, d: s.inv(X)), None, batch + (2, 5, 9), True, "plain"
    if comp in ("laplace", "gauss"):
        s = (tv.LaplaceModel if comp == "laplace" else tv.GaussModel)()
        return (lambda X, d: s(X)), None, cshape, True, "plain"
    fn = {"pb": tv.projection_back, "l2": sc.minimum_distortion_l2, "phase": tv.minimum_distortion_l2_phase}[comp]
    return (lambda Z, d: fn(Z[..., 1:, :, :], Z[..., 0, :, :])), None, batch + (3, F, N), True, "plain"


def loss(Y, kind, seed):
    g = torch.Generator().manual_seed(seed)
    if kind == "power":
        A = torch.randn(Y.shape, generator=g, dtype=torch.float64)
        return (A * (Y.real.square() + (Y.imag.square() if Y.is_complex() else 0))).sum()
    if Y.is_complex():
        A = torch.view_as_complex(torch.randn(Y.shape + (2,), generator=g, dtype=torch.float64))
        return (A.conj() * Y).real.sum() + 0.1 * (Y.real.square() + Y.imag.square()).sum()
    A = torch.randn(Y.shape, generator=g, dtype=torch.float64)
    return (A * Y).sum() + 0.1 * Y.square().sum()


def draw(shape, cplx, g):
    if cplx:
        return torch.view_as_complex(torch.randn(tuple(shape) + (2,), generator=g, dtype=torch.float64))
    return torch.randn(shape, generator=g, dtype=torch.float64)


def inner(grad, D):
    return float((grad.conj() * D).real.sum()) if D.is_complex() else float((grad * D).sum())


def run(check):
    torch.set_default_dtype(torch.float64)
    verify_exhaustive(check, "gradient", ["once", "trackedOnly", "consistent"], main="gradientSmall", step="bounded")
    n = 480 if TIER == "quick" else 2400
    for i, b in enumerate(run_quint(check, "gradient", n, 12, invariants=["once", "trackedOnly", "consistent"], main="gradientFull")):
        comp, v = b[0]["comp"], b[0]["setting"]
        g = torch.Generator().manual_seed(SEED * 7919 + i)
        fn, m, shape, cplx, kind = component(comp, v, g)
        fn0, m0, *_ = component(comp, v, g)  # for the reference
        par0 = list(m0.parameters()) if m0 is not None else []
        X = [draw(shape, cplx, g).requires_grad_(b[0]["wantInput"]) for _ in range(2)]
        DX = [draw(shape, cplx, g) for _ in range(2)]
        par = list(m.parameters()) if m is not None else []
        frozen = [j not in b[0]["trained"] for j in range(len(par))]
        for p, z in zip(par, frozen):
            p.requires_grad_(not z)
        DP = [torch.randn(p.shape, generator=g, dtype=torch.float64) * (0 if z else 1) for p, z in zip(par, frozen)]
        versions = [[p.detach().clone() for p in par]]
        outs, ref = {}, {}
        check.count(comp)
        check.traces += 1

        def value(x, version, seed, tp=0.0):
            with torch.no_grad():
                for p, q, dp in zip(par0, versions[version], DP):
                    p.copy_(q + tp * dp)
                torch.manual_seed(SEED + seed)
                return float(loss(fn0(x, False), kind, seed))

        def reference(f):
            """Directional derivatives of forward pass f by central differences (Richardson), without recomputation."""
            if f["id"] in ref:
                return ref[f["id"]]
            x0 = X[f["input"]].detach()

            def at(tx, tp):
                return value(x0 + tx * DX[f["input"]], f["version"], f["id"], tp)

            def slope(ax, ap):
                h = 2e-4
                d1 = (at(h * ax, h * ap) - at(-h * ax, -h * ap)) / (2 * h)
                d2 = (at(h / 2 * ax, h / 2 * ap) - at(-h / 2 * ax, -h / 2 * ap)) / h
                return (4 * d2 - d1) / 3, abs(d2 - d1)
            ref[f["id"]] = (slope(1, 0), slope(0, 1) if not all(frozen) else (0.0, 0.0))
            return ref[f["id"]]

        autograd = {}

        def plain(f):
            """The same pass on its own, without recomputation: (gradient of the input, gradients of the parameters)."""
            if f["id"] not in autograd:
                with torch.no_grad():
                    for p, q in zip(par0, versions[f["version"]]):
                        p.copy_(q)
                x = X[f["input"]].detach().clone().requires_grad_()
                torch.manual_seed(SEED + f["id"])
                gs = torch.autograd.grad(loss(fn0(x, False), kind, f["id"]), [x] + par0, allow_unused=True)
                autograd[f["id"]] = [torch.zeros_like(t) if q is None else q for t, q in zip([x] + par0, gs)]
            return autograd[f["id"]]

        # solutions are regularised relative to norms that count as constants: the derivative is exact up to the regularisation
        loose = comp in ("ip", "sep", "tissover") or (comp in ("tiss", "tisstaps") and v % 3 < 2)
        tol = 2e-2 if loose else 1e-5
        bad = False
        for s in b.states[1:]:
            d = dict(comp=comp, setting=v, input=b[0]["wantInput"], trained=sorted(b[0]["trained"]), last=s["last"], dmc=s["fwds"][-1]["dmc"] if s["fwds"] else None)
            if s["last"] == "forward":
                f = s["fwds"][-1]
                x = X[f["input"]]
                keep = x.detach().clone()
                torch.manual_seed(SEED + f["id"])
                with torch.set_grad_enabled(f["tracked"]):
                    y, err = bss.attempt(lambda: loss(fn(x, f["dmc"]), kind, f["id"]))
                if err:
                    check.violation("forward raises", dict(d, error=err), b)
                    bad = True
                    break
                want = value(x.detach(), f["version"], f["id"])
                check.comparisons += 1
                if abs(float(y.detach()) - want) > 1e-8 * max(1.0, abs(want)) or not torch.equal(keep, x.detach()):
                    check.violation("value of the forward pass", dict(d, got=float(y.detach()), want=want), b)
                    bad = True
                    break
                if f["tracked"] and not y.requires_grad:
                    check.violation("not differentiable", d, b)
                    bad = True
                    break
                outs[f["id"]] = y
            elif s["last"] == "backward":
                before = set(range(len(s["fwds"]))) - set(s["pending"])
                fid = s["accPar"][-1]
                _, err = bss.attempt(lambda: outs.pop(fid).backward())
                if err:
                    check.violation("backward raises", dict(d, error=err), b)
                    bad = True
                    break
                for k in range(2):
                    pairs = [reference(s["fwds"][f])[0] for f in s["acc"][k]]
                    if not pairs:
                        continue
                    want, slack = sum(p[0] for p in pairs), sum(p[1] for p in pairs)
                    G = X[k].grad
                    got = inner(G, DX[k]) if G is not None else 0.0
                    size = sum(abs(p[0]) for p in pairs) + (float((G.abs().square().sum() * 1.0).sqrt()) if G is not None else 0) + 1e-9
                    check.comparisons += 1
                    if slack > 1e-3 * size:
                        check.count("not smooth enough for differences")
                        continue
                    e = abs(got - want) / size
                    if not e < tol + 2 * slack / size:
                        check.violation("gradient of the input", dict(d, got=got, want=want, error=e), b)
                        bad = True
                        break
                if not bad:
                    # any order of passes, with or without recomputation, adds up to the gradients of the passes on their own
                    tens = [(X[k], [plain(s["fwds"][f])[0] for f in s["acc"][k]]) for k in range(2)]
                    tens += [(p, [plain(s["fwds"][f])[1 + j] for f in s["accPar"]]) for j, p in enumerate(par) if not frozen[j]]
                    if any(p.grad is not None for p, z in zip(par, frozen) if z):
                        check.violation("a frozen parameter has a gradient", d, b)
                        bad = True
                    for t, parts in tens:
                        if not parts:
                            continue
                        want = sum(parts[1:], parts[0])
                        got = t.grad if t.grad is not None else torch.zeros_like(want)
                        if not bss.compare(check, "accumulated gradient", b, got, want, 1e-7, d, 1e-7):
                            bad = True
                            break
                if not all(frozen) and not bad:
                    pairs = [reference(s["fwds"][f])[1] for f in s["accPar"]]
                    want, slack = sum(p[0] for p in pairs), sum(p[1] for p in pairs)
                    got = sum(inner(p.grad, dp) if p.grad is not None else 0.0 for p, dp in zip(par, DP))
                    size = sum(abs(p[0]) for p in pairs) + sum(float(p.grad.norm()) for p in par if p.grad is not None) + 1e-9
                    # the gradient of a frozen parameter is part of the scale that errors are compared to
                    size += sum(float(q.norm()) for f in s["accPar"] for q, z in zip(plain(s["fwds"][f])[1:], frozen) if z)
                    check.comparisons += 1
                    e = abs(got - want) / size
                    if slack > 1e-3 * size:
                        check.count("not smooth enough for differences")
                    elif not e < tol + 2 * slack / size:
                        check.violation("gradient of the model", dict(d, got=got, want=want, error=e), b)
                        bad = True
                if bad:
                    break
            elif s["last"] == "clear":
                for t in X + par:
                    t.grad = None
            elif s["last"] == "update":
                with torch.no_grad():
                    for p in [p for p, z in zip(par, frozen) if not z]:
                        p.add_(0.1 * torch.randn(p.shape, generator=g, dtype=torch.float64))
                versions.append([p.detach().clone() for p in par])
        check.sample({"comp": comp, "setting": v, "fwds": b[-1]["fwds"]})


if __name__ == "__main__":
    main_of(run, "C12")
