"""Shared machinery: run Quint, read its behaviours, report, write evidence.

A check generates behaviours from a Quint specification (``quint run --mbt``),
replays each of them into the code of /repo and compares every observable the
specification determines.  Nothing is cached between runs.
"""
import hashlib
import json
import os
import shutil
import socket
import subprocess
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
REPO = Path(os.environ.get("TORCHIVA_REPO", "/repo"))
ONE = 2 ** 96
PROCS = 8

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))


class MachineryError(Exception):
    """The check itself could not run; never reported as a violation."""


# --------------------------------------------------------------------------- ITF
def _hook(d):
    if len(d) == 1:
        if "#bigint" in d:
            return int(d["#bigint"])
        if "#set" in d:
            return d["#set"]
        if "#tup" in d:
            return tuple(d["#tup"])
        if "#map" in d:
            return {_key(k): v for k, v in d["#map"]}
    if len(d) == 2 and "re" in d and "im" in d:
        return complex(d["re"] / ONE, d["im"] / ONE)
    return d


def _key(k):
    return tuple(k) if isinstance(k, list) else k


class Behaviour:
    """One behaviour of a specification: its states, in order."""

    def __init__(self, path, spec):
        self.path = path
        self.spec = spec
        with open(path) as f:
            raw = json.load(f, object_hook=_hook)
        self.states = []
        for s in raw["states"]:
            st = {}
            for k, v in s.items():
                if k == "#meta":
                    continue
                if k == "mbt::actionTaken":
                    st["action"] = v
                elif k == "mbt::nondetPicks":
                    st["picks"] = v
                else:
                    st[k.split("::")[-1]] = v
            self.states.append(st)

    def __len__(self):
        return len(self.states)

    def __getitem__(self, i):
        return self.states[i]


def env_for_quint():
    env = dict(os.environ)
    env["NODE_OPTIONS"] = "--require " + str(VERIF / "harness" / "quint_fixes.js") + " --max-old-space-size=3000"
    return env


def run_quint(check, spec, n, max_steps, invariants=(), main=None, init=None, step=None, procs=PROCS, salt=0,
              timeout=800):
    """Behaviours of ``spec`` from ``procs`` simulator processes.

    The specification's own invariants are evaluated in every state; if one
    fails the specification is wrong, which is an error of the check.
    """
    src = SPEC / f"{spec}.qnt"
    tmp = Path(tempfile.mkdtemp(prefix=f"quint_{spec}_", dir=check.scratch))
    procs = max(1, min(procs, n))
    jobs = []
    for p in range(procs):
        cnt = n // procs + (1 if p < n % procs else 0)
        d = tmp / str(p)
        d.mkdir()
        seed = int.from_bytes(hashlib.sha256(f"{SEED}/{spec}/{salt}/{p}".encode()).digest()[:6], "big")
        cmd = ["quint", "run", "--mbt", "--max-samples", str(cnt), "--n-traces", str(cnt), "--max-steps",
               str(max_steps), "--seed", str(seed), f"--out-itf={d}/o_{{seq}}.itf.json", "--verbosity", "1"]
        if invariants:
            cmd += ["--invariants", *invariants]
        if main:
            cmd += ["--main", main]
        if init:
            cmd += ["--init", init]
        if step:
            cmd += ["--step", step]
        cmd.insert(3, str(src))
        log = open(d / "log", "w")
        jobs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env_for_quint(),
                                      cwd=str(SPEC)), d, cmd))
    out = []
    deadline = time.time() + timeout
    for job, d, cmd in jobs:
        try:
            rc = job.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            for j, _, _ in jobs:
                j.kill()
            raise MachineryError(f"quint run on {spec} did not end in {timeout} s")
        if rc != 0:
            raise MachineryError(f"quint run failed on {spec}: " + (d / "log").read_text()[-3000:] + " ".join(cmd))
        for f in sorted(d.glob("*.itf.json"), key=lambda f: int(f.name.split("_")[1].split(".")[0])):
            out.append(Behaviour(f, spec))
    if not out:
        raise MachineryError(f"no behaviour of {spec}")
    seen = set()
    for b in out:
        for s in b.states:
            check.actions[s.get("action") or "init"] = check.actions.get(s.get("action") or "init", 0) + 1
        check.transitions += len(b) - 1
        check.states += len(b)
    check.behaviours[spec] = check.behaviours.get(spec, 0) + len(out)
    check.spec_invariants += [f"{spec}:{i}" for i in invariants if f"{spec}:{i}" not in check.spec_invariants]
    return out


def verify_exhaustive(check, spec, invariants, main=None, backend="tlc", max_steps=None, timeout=800, temporal=(), step=None):
    """Exhaustive exploration of a finite specification (TLC through ``quint verify``)."""
    tmp = Path(tempfile.mkdtemp(prefix=f"verify_{spec}_", dir=check.scratch))
    cmd = ["quint", "verify", str(SPEC / f"{spec}.qnt"), "--backend", backend, "--server-endpoint", "localhost:PORT"]
    if invariants:
        cmd += ["--invariants", *invariants]
    if temporal:
        cmd += ["--temporal", *temporal]
    if main:
        cmd += ["--main", main]
    if step:
        cmd += ["--step", step]
    if max_steps:
        cmd += ["--max-steps", str(max_steps)]
    env = dict(os.environ)
    for attempt in range(4):
        # a port of its own, so that checks can run side by side
        with socket.socket() as so:
            so.bind(("127.0.0.1", 0))
            port = so.getsockname()[1]
        run = [c.replace("localhost:PORT", f"localhost:{port}") for c in cmd]
        r = subprocess.run(run, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)
        txt = r.stdout
        if r.returncode == 0 or "Failed to bind" not in txt:
            break
    if r.returncode != 0:
        raise MachineryError(f"quint verify failed on {spec}: {txt[-3000:]}")
    import re
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct", txt):
        pass
    res = {"spec": spec, "backend": backend, "invariants": list(invariants)}
    if m:
        res["generated"] = int(m.group(1).replace(",", ""))
        res["distinct"] = int(m.group(2).replace(",", ""))
        check.states += res["distinct"]
        check.transitions += res["generated"]
    check.exhaustive.append(res)
    return res


# --------------------------------------------------------------------------- reporting
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.comparisons = 0
        self.actions = {}
        self.behaviours = {}
        self.spec_invariants = []
        self.exhaustive = []
        self.violations = []
        self.samples = []
        self.known = []
        self.stats = {}
        self.assumptions = []
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
        self.max_err = 0.0
        self.known_list = load_known(pid)
        self.known_seen = {}

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def violation(self, clause, detail, behaviour=None):
        for k in self.known_list:
            if k["clause"] == clause and all(detail.get(f) == v for f, v in k.get("match", {}).items()):
                self.known_seen[k["what"]] = self.known_seen.get(k["what"], 0) + 1
                return
        self.violations.append((clause, detail, behaviour))

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    # ------------------------------------------------------------------ end
    def finish(self):
        ev_dir = VERIF / "evidence"
        ev_dir.mkdir(exist_ok=True)
        lines = []
        if self.violations:
            rep = ev_dir / "replay"
            rep.mkdir(exist_ok=True)
            for i, (clause, detail, beh) in enumerate(self.violations[:5]):
                p = rep / f"{self.pid}_{i}.json"
                obj = {"property": self.pid, "clause": clause, "detail": detail, "seed": SEED, "tier": TIER}
                if beh is not None:
                    q = rep / f"{self.pid}_{i}.itf.json"
                    if Path(beh.path).exists():
                        shutil.copyfile(beh.path, q)
                        obj["behaviour"] = str(q)
                    obj["spec"] = beh.spec
                p.write_text(json.dumps(obj, indent=1, default=str))
                lines.append(f"VIOLATION property={self.pid} replay={p}")
                print(f"-- {clause}: {json.dumps(detail, default=str)[:1200]}")
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or ["no sample"],
            "behaviours_per_spec": self.behaviours,
            "actions_taken": self.actions,
            "spec_invariants": self.spec_invariants,
            "exhaustive_runs": self.exhaustive,
            "implementation_comparisons": self.comparisons,
            "largest_relative_error": self.max_err,
            "counters": self.stats,
        }
        ev = {
            "property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
            "level": self.level, "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        (ev_dir / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        shutil.rmtree(self.scratch, ignore_errors=True)
        for k in self.known_list:
            n = self.known_seen.get(k["what"], 0)
            if n:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']} ({n} occurrences in this run)")
        print(f"{self.pid}: {sum(self.behaviours.values())} behaviours, {self.traces} replays, "
              f"{self.comparisons} comparisons, max rel. error {self.max_err:.2e}, "
              f"{len(self.violations)} violations, {time.time() - self.t0:.1f} s")
        for line in lines[:5]:
            print(line)
        sys.stdout.flush()
        return 1 if self.violations else 0


def load_known(pid):
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return [k for k in json.loads(p.read_text())["known"] if k["property"] == pid]


# --------------------------------------------------------------------------- numbers
def import_torchiva():
    """The code under test, from /repo's working tree."""
    sys.dont_write_bytecode = True
    if str(REPO) not in sys.path:
        sys.path.insert(0, str(REPO))
    import warnings
    warnings.simplefilter("ignore")
    import torch
    torch.set_num_threads(1)
    import torchiva
    f = Path(torchiva.__file__).resolve()
    if not str(f).startswith(str(REPO.resolve())):
        raise MachineryError(f"torchiva imported from {f}, not from {REPO}")
    return torchiva


def T(nested, dtype=None):
    import torch
    return torch.tensor(nested, dtype=dtype or torch.complex128)


def R(nested):
    """Fixed point reals to a float64 tensor."""
    import torch

    def conv(x):
        if isinstance(x, list):
            return [conv(y) for y in x]
        return x / ONE
    return torch.tensor(conv(nested), dtype=torch.float64)


def rel_err(a, b, floor=0.0):
    """Largest deviation of a from b, relative to the size of b (inf if a is not finite or misshapen).

    floor: size below which b counts as zero."""
    import torch
    if not torch.is_tensor(a) or tuple(a.shape) != tuple(b.shape):
        return float("inf")
    if a.numel() == 0:
        return 0.0
    a, b = a.detach().resolve_conj().resolve_neg(), b.resolve_conj()
    a = a.to(b.dtype if b.is_complex() or not a.is_complex() else torch.complex128)
    if not bool(torch.isfinite(torch.view_as_real(a) if a.is_complex() else a).all()):
        return float("inf")
    return float((a - b).abs().max() / max(float(b.abs().max()), floor, 1e-30))


def main_of(fn, pid, level="model_checking"):
    """Run a check; exit 0, 1 with VIOLATION lines, or 2 when the check itself could not run."""
    check = Check(pid, level)
    try:
        fn(check)
        rc = check.finish()
    except MachineryError as e:
        shutil.rmtree(check.scratch, ignore_errors=True)
        print(f"ERROR of the check {pid}: {e}")
        rc = 2
    except Exception as e:
        traceback.print_exc()
        frames = traceback.extract_tb(e.__traceback__)
        if any(str(Path(f.filename).resolve()).startswith(str(REPO.resolve()) + "/") for f in frames):
            # the code under test raised where it never does
            check.violation("unexpected exception from the code", {"error": f"{type(e).__name__}: {e}"})
            rc = check.finish()
        else:
            shutil.rmtree(check.scratch, ignore_errors=True)
            print(f"ERROR of the check {pid}")
            rc = 2
    sys.stdout.flush()
    os._exit(rc)
