"""Replay of behaviours of the separation specifications into the real separators."""
import random

import torch

from core import ONE, R, T, import_torchiva, rel_err

tv = import_torchiva()


class Spy(torch.nn.Module):
    """A source model that records what it is shown and answers like the specification's model."""

    def __init__(self, kind, tables, freqs=None):
        super().__init__()
        self.kind = kind
        self.tables = tables
        self.freqs = freqs                 # which frequency of the behaviour each frequency repeats
        self.seen = []
        if kind == "laplace":
            self.inner = tv.models.LaplaceModel()
        elif kind == "gauss":
            self.inner = tv.models.GaussModel()

    def forward(self, Y):
        self.seen.append(Y.detach().clone())
        idx = self.freqs
        if self.kind == "table":
            w = self.tables[min(len(self.seen), len(self.tables)) - 1].to(Y.real.dtype)
            if idx is not None:
                w = w[..., idx, :]
            return w.broadcast_to(Y.shape).clone()
        if idx is not None and Y.shape[-2] == len(idx):
            base = Y[..., : max(idx) + 1, :]
            return self.inner(base).broadcast_to(base.shape)[..., idx, :]
        return self.inner(Y)


def attempt(fn):
    """(result, None) or (None, text of the exception raised by the code under test)."""
    try:
        return fn(), None
    except Exception as e:  # noqa: BLE001
        return None, f"{type(e).__name__}: {e}"


def model_calls(b, after="callModel"):
    """(estimate shown to the model, weights it returned) for every model call of the behaviour."""
    return [(T(s["Y"]), R(s["wt"])) for s in b.states if s.get("action") == after]


def compare(check, clause, b, got, want, tol, info, floor=0.0, slack=None):
    """slack: for a value that is too far off, how far rounding alone can move it."""
    check.comparisons += 1
    e = rel_err(got, want, floor)
    if tol < e < float("inf") and slack is not None:
        tol = max(tol, 10 * slack())
        if e <= tol or tol > 1e-2:  # the value hangs on the last digits of the input: nothing to compare any more
            check.ill_conditioned = getattr(check, "ill_conditioned", 0) + 1
            return None
    if e > tol:
        check.violation(clause, dict(info, error=e, tolerance=tol,
                                     shape=list(got.shape) if torch.is_tensor(got) else str(got),
                                     wanted_shape=list(want.shape)), b)
        return False
    check.max_err = max(check.max_err, e)
    return True


def batch_variant(X, rng, kind):
    """Embed X in a batch; returns the batch and how to take X's part out again."""
    if kind == "single":
        return X, lambda t: t
    if kind == "one":
        return X[None], lambda t: t[0]
    other = torch.tensor([[rng.gauss(0, 1), rng.gauss(0, 1)] for _ in range(X.numel())], dtype=torch.float64)
    other = torch.view_as_complex(other).reshape(X.shape).to(X.dtype) * (3.0 * max(float(X.abs().max()), 1e-3))
    if kind == "first":
        return torch.stack([X, other]), lambda t: t[0]
    if kind == "last":
        return torch.stack([other, X]), lambda t: t[1]
    if kind == "grid":
        Z = torch.stack([other, X, other * 0.1, other.conj(), other * 2, other.flip(-1)]).reshape((2, 3) + X.shape)
        return Z, lambda t: t[0, 1]
    if kind == "many":
        Z = torch.stack([other * (0.3 * k + 0.1) if k % 2 else other.flip(-1).conj() * (k + 1) for k in range(17)])
        Z[11] = X
        return Z, lambda t: t[11]
    if kind == "deep":
        return torch.stack([other, X]).reshape((1, 2, 1) + X.shape), lambda t: t[0, 1, 0]
    raise ValueError(kind)


BATCHES = ["single", "single", "one", "first", "last", "grid", "grid", "many", "deep"]


def repetition(F, rng, first=0, small=False):
    """Frequencies to repeat in a large problem: every frequency is treated alike, except the first ones."""
    n = rng.choice([17, 65, 140, 600] + ([2060] if small else [])) // (F - first) + 1  # equally often, as scales are averaged over the frequencies
    return list(range(first)) + [first + k % (F - first) for k in range(n * (F - first))]


def layout(X, kind):
    """The same values with another memory layout."""
    if kind == "plain":
        return X
    if kind == "strided":
        big = torch.zeros(X.shape[:-1] + (2 * X.shape[-1] + 3,), dtype=X.dtype)
        v = big[..., 3::2]
        v.copy_(X)
        return v
    if kind == "transposed":
        return X.transpose(-1, -2).contiguous().transpose(-1, -2)
    if kind == "offset":
        big = torch.zeros((X.shape[0] + 1,) + X.shape[1:], dtype=X.dtype)
        big[1:] = X
        return big[1:]
    raise ValueError(kind)


LAYOUTS = ["plain", "strided", "transposed", "offset"]


def replay_separator(check, b, build, calls, want, *, tol=1e-6, rng=None, info=None, clause="", align=None, first=0):
    """Run the real separator on the behaviour's input and compare estimates and output.

    build(spy) -> callable X -> Y.
    align: removes what the specification leaves open (a phase per frequency).
    """
    rng = rng or random.Random(0)
    al = align or (lambda got, want: got)
    cfg = b[0]["cfg"]
    X = T(b[0]["X"])
    floor = 1e-7 * float(X.abs().max())
    bk = rng.choice(BATCHES)
    lk = rng.choice(LAYOUTS)
    freqs = repetition(X.shape[-2], rng, first, X.shape[-1] < 12) if rng.random() < 0.25 and X.shape[-2] > first else None
    if freqs is not None:
        # large problems: many frequencies that repeat those of the behaviour
        inner = [k - first for k in freqs[first:]]
        X, want = X[..., freqs, :], want[..., freqs, :]
        calls = [(y[..., inner, :], w) for y, w in calls]
        if bk in ("grid", "many"):
            bk = "last"
    spy = Spy(cfg["model"], [w for _, w in calls], None if freqs is None else inner)
    Xb, pick = batch_variant(X, rng, bk)
    Xb = layout(Xb, lk)
    before = Xb.clone()
    d = dict(info or {}, cfg=cfg, batch=bk, layout=lk, frequencies=X.shape[-2])
    out, err = attempt(lambda: build(spy)(Xb))
    check.traces += 1
    if err is not None:
        check.violation(clause + "raises", dict(d, error=err), b)
        return
    if not torch.equal(Xb, before):
        check.violation(clause + "input modified", d, b)
        return
    if len(spy.seen) != len(calls):
        check.violation(clause + "number of source model calls", dict(d, got=len(spy.seen), want=len(calls)), b)
        return
    if out.dtype != X.dtype:
        check.violation(clause + "output dtype", dict(d, got=str(out.dtype)), b)
        return
    slack = lambda i: lambda: rounding(build, spy, X, i, al, floor)
    for i, (seen, (y, _)) in enumerate(zip(spy.seen, calls)):
        if not compare(check, clause + "estimate shown to the source model", b, al(pick(seen), y), y, tol,
                       dict(d, iteration=i), floor, slack(i)):
            return
    compare(check, clause + "output", b, al(pick(out), want), want, tol, d, floor, slack(None))


def rounding(build, spy, X, i, al, floor):
    """Change of the i-th estimate (None: of the output) when the input is moved by about its rounding error."""
    def run(Z):
        sp = Spy(spy.kind, spy.tables, spy.freqs)
        out = build(sp)(Z)
        return out if i is None else sp.seen[i]
    return moved(run, X, floor, al)


def moved(run, X, floor, al=lambda got, want: got):
    """Change of run(X) when X is moved by about its rounding error."""
    gen = torch.Generator().manual_seed(1)
    base, worst = run(X), 0.0
    for _ in range(3):
        Z = X * (1 + 1e-14 * torch.randn(X.shape, dtype=torch.float64, generator=gen))
        worst = max(worst, rel_err(al(run(Z), base), base, floor))
    return worst


def align_phase(got, want):
    """Rotate every frequency of got by the phase that fits want best."""
    if not torch.is_tensor(got) or got.shape != want.shape:
        return got
    c = (got.conj() * want).sum(dim=-1, keepdim=True)
    ph = torch.where(c.abs() > 0, c / c.abs().clamp(min=1e-300), torch.ones_like(c))
    return got * ph
