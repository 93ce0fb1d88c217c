"""Call arguments override construction parameters, for that call only."""
import random

import torch

from core import SEED, TIER, main_of, run_quint, verify_exhaustive
import session as ss


def run(check):
    torch.set_default_dtype(torch.float64)
    n = 320 if TIER == "quick" else 2400
    verify_exhaustive(check, "session", ["attributesKept", "ownState", "effective", "current"], main="sessionSmall")
    behs = run_quint(check, "session", n, 26, invariants=["attributesKept", "ownState", "effective", "current"], main="sessionCalls")
    for i, b in enumerate(behs):
        comp, ctor, calls = ss.behaviours_of_calls(b)
        rng = random.Random(SEED * 1000003 + i)
        xs = ss.inputs(comp, SEED * 7919 + i)
        check.traces += 1
        for j, c in enumerate(calls):
            models = ss.fresh_models(comp)
            obj = ss.construct(comp, ctor[c["obj"]], models)
            before = ss.snapshot(comp, obj)
            X = xs[c["input"]]
            seed = rng.randrange(2 ** 31)
            got = ss.invoke(comp, obj, c["over"], models, X, c["fault"], seed, rng)
            d = dict(comp=comp, ctor=ctor[c["obj"]], call={k: c[k] for k in ("over", "eff", "input", "fault")}, index=j)
            check.comparisons += 1
            check.count(f"calls {comp}")
            check.count(f"fault {c['fault']}")
            if ss.snapshot(comp, obj) != before:
                check.violation("a call rewrites the object's parameters", d, b)
                break
            if c["fault"] == "sources":
                if comp in ("tiss", "ip") and got[0] != "raises":
                    check.violation("more sources than channels is accepted", d, b)
                continue
            if c["fault"] != "none":
                continue
            # the same parameters given at construction
            m2 = ss.fresh_models(comp)
            ref = ss.construct(comp, c["eff"], m2)
            want = ss.invoke(comp, ref, {}, m2, X.clone(), "none", seed, rng)
            ok, e = ss.same(got, want)
            if got[0] == "raises":
                check.count("both raise")
            if not ok:
                check.violation("arguments of the call do not act like construction parameters", dict(d, error=e), b)
                break
            # the same call ended by its model leaves the object as it was
            m4 = ss.fresh_models(comp)
            obj4 = ss.construct(comp, ctor[c["obj"]], m4)
            before = ss.snapshot(comp, obj4)
            broken = ss.invoke(comp, obj4, c["over"], m4, X, "model", seed, rng)
            check.count(f"model fails: {broken[0]}")
            if broken[0] == "raises":
                check.comparisons += 1
                if ss.snapshot(comp, obj4) != before:
                    check.violation("a call rewrites the object's parameters", d, b)
                    break
                if rng.random() < 0.3:
                    s2 = rng.randrange(2 ** 31)
                    a = ss.invoke(comp, obj4, {}, m4, X, "none", s2, rng)
                    m3 = ss.fresh_models(comp)
                    w = ss.invoke(comp, ss.construct(comp, ctor[c["obj"]], m3), {}, m3, X, "none", s2, rng)
                    ok, e = ss.same(a, w)
                    check.comparisons += 1
                    if not ok:
                        check.violation("arguments of a failed call leak into the next one", dict(d, error=e), b)
                        break
            # and afterwards the object behaves as constructed
            if rng.random() < 0.3:
                s2 = rng.randrange(2 ** 31)
                a = ss.invoke(comp, obj, {}, models, X, "none", s2, rng)
                m3 = ss.fresh_models(comp)
                w = ss.invoke(comp, ss.construct(comp, ctor[c["obj"]], m3), {}, m3, X, "none", s2, rng)
                ok, e = ss.same(a, w)
                check.comparisons += 1
                if not ok:
                    check.violation("arguments of a call leak into the next one", dict(d, error=e), b)
                    break
        check.sample({"comp": comp, "calls": [{"over": {k: v for k, v in c["over"].items() if v != -1}, "input": c["input"], "fault": c["fault"]} for c in calls][:3]})


if __name__ == "__main__":
    main_of(run, "C08")
