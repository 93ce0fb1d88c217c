import random

import torch

from core import SEED, TIER, R, T, main_of, rel_err, run_quint
import bss
from bss import tv

L = tv.linalg


def gaps(vals):
    v = vals.tolist()
    s = max(abs(v[0]), abs(v[-1]), 1e-9)
    return min([(b - a) / s for a, b in zip(v, v[1:])] or [1.0])


def run(check):
    n = 2600 if TIER == "quick" else 8000
    for i, b in enumerate(run_quint(check, "linalg", n, 3, invariants=["eigenpairs", "inverse", "trace"])):
        cfg, st = b[0]["cfg"], b[-1]
        rng = random.Random(SEED * 1000003 + i)
        op = cfg["op"]
        A, B = T(b[0]["A"]), T(b[0]["B"])
        single = rng.random() < 0.15 and op in ("bmm", "hermite", "multiply", "magsq", "hankel", "inv2", "dload", "mag", "divide") and cfg["special"] > 0
        if not cfg["cplx"]:
            A = A.real.clone()
        if not cfg["cplx2"]:
            B = B.real.clone()
        if single:
            A = A.to(torch.complex64 if cfg["cplx"] else torch.float32)
            B = B.to(torch.complex64 if cfg["cplx2"] else torch.float32)
        bk, lk = rng.choice(bss.BATCHES), rng.choice(bss.LAYOUTS)
        d = dict(op=op, complex=cfg["cplx"], diag=cfg["diag"], cfg=cfg, batch=bk, layout=lk)

        def batch(M, seed):
            g = random.Random(seed)
            if M.is_complex():
                Mb, pick = bss.batch_variant(M, g, bk)
            else:
                Mb, pick = bss.batch_variant(M.to(torch.complex128), g, bk)
                Mb = Mb.real.to(M.dtype).clone()
            if op in ("geigh", "geigh2", "bound2", "floor") or (op in ("eigh", "eigh2", "bound1") and seed == 1):
                # every matrix of the batch is Hermitian, and positive where it has to be
                H = Mb if Mb.ndim == 2 else torch.stack([M if torch.equal(x, M) else (x @ x.mH + torch.eye(x.shape[-1]) if seed == 2 else x + x.mH)
                                                         for x in Mb.reshape((-1,) + Mb.shape[-2:])]).reshape(Mb.shape)
                return bss.layout(H.resolve_conj(), lk), pick
            return bss.layout(Mb, lk), pick
        Ab, pick = batch(A, 1)
        Bb, _ = batch(B, 2)
        if rng.random() < 0.4 and op != "hankel":  # the same values as lazily conjugated tensors
            Ab, Bb = Ab.conj().resolve_conj().conj(), Bb.conj().resolve_conj().conj()
        k0, k1 = Ab.clone(), Bb.clone()
        # hermite also swaps other axes than the last two
        perm = list(range(Ab.ndim))
        if op == "hermite" and rng.random() < 0.6:
            rng.shuffle(perm)
            Ab = Ab.permute(perm)
            k0 = Ab.clone()
        dims = [perm.index(Ab.ndim - 2), perm.index(Ab.ndim - 1)]
        dims = [x - rng.choice([0, Ab.ndim]) for x in dims]

        def swap():
            Z = L.hermite(Ab, *dims) if rng.random() < 0.5 else L.hermite(Ab, dim1=dims[0], dim2=dims[1])
            return Z.permute([perm.index(k) for k in range(Ab.ndim)])
        cpu = dict(use_eigh_cpu=rng.random() < 0.5) if rng.random() < 0.5 else {}
        load, eps = 1.0 / cfg["load"], 1.0 / cfg["epsDen"]
        call = {
            "bmm": lambda: L.bmm(Ab, Bb), "hermite": lambda: L.hermite(Ab) if perm == sorted(perm) else swap(), "multiply": lambda: L.multiply(Ab, Bb), "magsq": lambda: L.mag_sq(Ab),
            "solve": lambda: L.solve_loaded(Ab, Bb, load=load), "general": lambda: L.solve_loaded_general(Ab, Bb, load=load, eps=eps),
            "invload": lambda: L.inv_loaded(Ab, load=load), "inv2": lambda: L.inv_2x2(Ab, eps=eps), "dload": lambda: L.diagonal_loading(Ab, Bb[..., 0]), "mag": lambda: L.mag(Ab), "divide": lambda: L.divide(Ab, Bb, eps=eps), "hankel": lambda: L.hankel_view(Ab, cfg["k"]),
            "eigh": lambda: L.eigh(Ab, **cpu), "geigh": lambda: L.eigh(Ab, Bb, **cpu), "floor": lambda: L.eigh(Ab, Bb, **cpu),
            "bound1": lambda: L.eigh_2x2(Ab, eps=eps), "bound2": lambda: L.eigh(Ab, Bb, eps=eps) if rng.random() < 0.5 else L.eigh_2x2(Ab, Bb, eps=eps), "eigh2": lambda: L.eigh_2x2(Ab), "geigh2": lambda: L.eigh_2x2(Ab, Bb),
        }[op]
        if op == "inv2" and abs(float((A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]).abs()) / eps - 1) < (1e-3 if single else 1e-9):
            check.count("a determinant just as large as the bound is left open")
            continue
        got, err = bss.attempt(call)
        check.traces += 1
        check.count(op)
        check.sample({"cfg": cfg})
        if err:
            check.violation("raises", dict(d, error=err), b)
            continue
        if not torch.equal(Ab, k0) or not torch.equal(Bb, k1):
            check.violation("input modified", d, b)
            continue
        tol = 1e-4 if single else 1e-6
        if st["vals"]:
            vals = R(st["vals"])
            val, vec = got[0], got[1]
            scale = float(vals.abs().max())
            if not bss.compare(check, "eigenvalues", b, pick(val), vals, 1e-7, d, 1e-6):
                continue
            if gaps(vals) < 1e-3 or scale < 1e-6:
                check.count("eigenvectors of a nearly multiple eigenvalue are left open")
                continue
            if op == "bound2":
                # the vectors have the phase of the closed form, those that vanish are left open
                w, g = T(st["vecs"]), pick(vec).to(torch.complex128).mT
                keep = w.abs().square().sum(-1) > 0.5
                bss.compare(check, "eigenvectors", b, g[keep][:, :, None] * g[keep][:, None, :].conj(), w[keep][:, :, None] * w[keep][:, None, :].conj(), 1e-5, d, 1e-9)
                continue
            if A.shape[-1] == 2:
                # the first row of A - lambda B vanishes for one of the eigenvalues: the closed form has nothing to work with
                BB = B if op.startswith("g") else torch.eye(2, dtype=torch.float64)
                first = min(float((A[0] - x * BB[0]).abs().max()) for x in vals)
                d["diag"] = first < 1e-9 * max(float(A.abs().max()), 1e-12)
            if not st["vecs"]:
                continue
            v = T(st["vecs"])  # rows are vectors
            want = v[:, :, None] * v[:, None, :].conj()
            g = pick(vec).to(torch.complex128).mT
            P = g[:, :, None] * g[:, None, :].conj()
            if op == "eigh2" and cfg["cplx"] and not d["diag"] and rel_err(P, want) > 1e-5 and rel_err(P.conj(), want) < 1e-5:
                check.violation("conjugated eigenvectors", d, b)
                continue
            bss.compare(check, "eigenvectors", b, g[:, :, None] * g[:, None, :].conj(), want, 1e-5, d)
            continue
        want = T(st["out"])
        g = pick(got)
        if op == "hankel":
            g = g.reshape(want.shape)
        real = op in ("magsq", "mag") or not (cfg["cplx"] or (op == "multiply" and cfg["cplx2"]))
        if g.is_complex() == real:
            check.violation("kind of number", dict(d, got=str(g.dtype)), b)
            continue
        if real:
            want = want.real
        bss.compare(check, "value", b, g.to(want.dtype), want, tol, d, 1e-9)


if __name__ == "__main__":
    main_of(run, "C17")
