"""What a call returns does not depend on the calls made before."""
import random

import torch

from core import SEED, TIER, main_of, run_quint, verify_exhaustive
import session as ss


def run(check):
    torch.set_default_dtype(torch.float64)
    n = 320 if TIER == "quick" else 2400
    verify_exhaustive(check, "session", ["attributesKept", "ownState", "effective", "current"], main="sessionSmall")
    behs = run_quint(check, "session", n, 32, invariants=["attributesKept", "ownState", "effective", "current"], main="sessionFull", salt=1)
    for i, b in enumerate(behs):
        comp, ctor, calls = ss.behaviours_of_calls(b)
        rng = random.Random(SEED * 1000003 + i)
        xs = ss.inputs(comp, SEED * 7919 + i)
        keep = [x.clone() for x in xs]
        # one pool of models shared by both objects for the whole session
        models = ss.fresh_models(comp)
        objs = {o: ss.construct(comp, ctor[o], models) for o in (0, 1)}
        evaluating = rng.random() < 0.4
        if evaluating:
            ss.evaluate(*models, *objs.values())
            check.count("in evaluation mode")
        results = []
        vers = {k: 0 for k in range(len(xs))}
        check.traces += 1
        for j, c in enumerate(calls):
            if c["wiped"]:
                # the caller has used the memory of the earlier results
                for q, _ in results:
                    q.fill_(7.0)
                results = [(q, q.clone()) for q, _ in results]
                check.count("results overwritten")
            if c["ver"] != vers[c["input"]]:
                vers[c["input"]] = c["ver"]
                with torch.no_grad():
                    xs[c["input"]].copy_(ss.inputs(comp, SEED * 7919 + i + 1000 * c["ver"])[c["input"]])
                keep[c["input"]] = xs[c["input"]].clone()
                check.count("input overwritten")
            X = xs[c["input"]]
            seed = rng.randrange(2 ** 31)
            got = ss.invoke(comp, objs[c["obj"]], c["over"], models, X, c["fault"], seed, random.Random(seed))
            d = dict(comp=comp, calls=[{k: q[k] for k in ("obj", "over", "input", "fault")} for q in calls[: j + 1]], index=j, ctor=ctor)
            check.comparisons += 1
            check.count(f"position {j}")
            m2 = ss.fresh_models(comp)
            ref = ss.construct(comp, ctor[c["obj"]], m2)
            if evaluating:
                ss.evaluate(ref, *m2)
            want = ss.invoke(comp, ref, c["over"], m2, keep[c["input"]].clone(), c["fault"], seed, random.Random(seed))
            ok, e = ss.same(got, want)
            if not ok:
                check.violation("the result depends on earlier calls", dict(d, error=e), b)
                break
            if any(not torch.equal(x, k) for x, k in zip(xs, keep)):
                check.violation("a call modified its input or an earlier one", d, b)
                break
            if any(not torch.equal(r, k) for r, k in results):
                check.violation("a call modified an earlier result", d, b)
                break
            if got[0] == "ok":
                r = got[1]
                if any(r.untyped_storage().data_ptr() == x.untyped_storage().data_ptr() for x in xs):
                    # IP2 without iterations returns its input: what the caller does to one happens to the other
                    r = r.clone()
                results.append((r, r.clone()))
        check.sample({"comp": comp, "calls": [{"obj": c["obj"], "input": c["input"], "fault": c["fault"]} for c in calls]})


if __name__ == "__main__":
    main_of(run, "C09")
