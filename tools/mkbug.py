"""Make a planted bug: mkbug.py SPECFILE.  SPECFILE is python defining id, property, edits=[(file, old, new)], needs, breaks, demo.

Confirms in a scratch copy that the demonstration passes without and fails with the change, and that the stable tests pass.
"""
import json, os, shutil, subprocess, sys
from pathlib import Path

SEEDED = Path(__file__).resolve().parent.parent / "seeded"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(ns, tests=True):
    bid = ns["id"]
    wt = Path(f"/tmp/bug_{bid}")
    shutil.rmtree(wt, ignore_errors=True)
    sh(f"git -C /repo worktree prune; cp -a /repo {wt}")
    for f, old, new in ns["edits"]:
        p = wt / f
        s = p.read_text()
        assert s.count(old) == 1, (bid, f, s.count(old), old)
        p.write_text(s.replace(old, new))
    d = SEEDED / bid
    d.mkdir(parents=True, exist_ok=True)
    (d / "patch.diff").write_text(sh(f"git -C {wt} diff").stdout)
    (d / "demo.py").write_text(ns["demo"].lstrip("\n"))
    (d / "demo.sh").write_text('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                               'exec timeout 250 /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    (d / "meta.json").write_text(json.dumps(dict(property=ns["property"], needs=ns["needs"], what_it_breaks=ns["breaks"]), indent=1) + "\n")
    a = sh(f"bash {d}/demo.sh", cwd="/repo")
    b = sh(f"bash {d}/demo.sh", cwd=str(wt))
    ok = a.returncode == 0 and b.returncode != 0
    print(bid, "demo clean rc", a.returncode, "bug rc", b.returncode, "OK" if ok else "BAD")
    print("   clean:", a.stdout.strip()[-300:], "\n   bug:", b.stdout.strip()[-300:])
    if tests:
        t = sh(f"cd {wt} && HOME=/root OMP_NUM_THREADS=2 PYTHONPATH={wt}:/opt/vp/plugins PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p vp_seed tests "
               "-p no:cacheprovider --tb=no -rf 2>&1 | grep -a FAILED")
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        key = lambda s: s.replace("/", ".").replace(".py::", "::").split("::")[-1]
        stable = {key(x) for x in base}
        bad = [l.split(" - ")[0] for l in t.stdout.splitlines() if key(l.split(" - ")[0].replace("FAILED ", "").strip()) in stable]
        print("   stable tests failing:", bad)
    shutil.rmtree(wt, ignore_errors=True)


if __name__ == "__main__":
    for f in sys.argv[1:]:
        ns = {}
        exec(Path(f).read_text(), ns)
        for b in ns.get("bugs", [ns]):
            make(b, tests=os.environ.get("NOTESTS") is None)
