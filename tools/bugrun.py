"""bugrun.py [ids...]: run the property's check against every planted bug, in scratch copies."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
CH = {c["property"]: c["quick_cmd"].split()[-1] for c in json.loads((V / "MANIFEST.json").read_text())["checks"]}


def one(bid):
    meta = json.loads((V / "seeded" / bid / "meta.json").read_text())
    wt = Path(f"/tmp/br_{bid}")
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(f"cp -a /repo {wt} && git -C {wt} apply {V}/seeded/{bid}/patch.diff", shell=True, check=True)
    ev = Path(f"/tmp/brv_{bid}")
    shutil.rmtree(ev, ignore_errors=True)
    shutil.copytree(V, ev, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
    r = subprocess.run(["/opt/venv/bin/python", CH[meta["property"]]], cwd=ev, env=dict(os.environ, TORCHIVA_REPO=str(wt), VERIF_TIER="quick", VERIF_SEED="1"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(wt)
    shutil.rmtree(ev)
    return bid, meta["property"], r.returncode, f"VIOLATION property={meta['property']}" in r.stdout, r.stdout[-300:] if r.returncode not in (0, 1) else ""


ids = sys.argv[1:] or sorted(p.name for p in (V / "seeded").iterdir())
with cf.ThreadPoolExecutor(int(os.environ.get("PROCS", "4"))) as ex:
    for r in ex.map(one, ids):
        print(*r, flush=True)
