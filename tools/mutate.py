"""Mutation survey: small changes of the code under test, and which checks notice each of them.

mutate.py OUT.jsonl FILE[:FUNCTION] ...   (files relative to the repository; runs in a scratch folder, never in /repo)

Behaviours of the specifications are generated once and kept in the scratch folder.
Used to find behaviour that no check looks at; not part of any registered check.
"""
import ast, concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
SCR = Path(os.environ.get("MUT_SCRATCH", "/tmp/mut"))
CHECKS = {
    "t_iss.py": ["c01_tiss", "c08_params", "c09_history", "c11_batch", "c12_grad", "c22_precision", "c23_defaults"],
    "auxiva_ip.py": ["c02_ip", "c08_params", "c09_history", "c11_batch", "c12_grad", "c22_precision", "c23_defaults"],
    "auxiva_ip2.py": ["c03_ip2", "c08_params", "c09_history", "c11_batch", "c12_grad", "c22_precision", "c23_defaults"],
    "five.py": ["c04_five", "c08_params", "c09_history", "c11_batch", "c12_grad", "c22_precision", "c23_defaults"],
    "wpe.py": ["c05_wpe", "c08_params", "c09_history", "c11_batch", "c12_grad", "c22_precision", "c23_defaults"],
    "beamformer.py": ["c06_beam", "c08_params", "c09_history", "c11_batch", "c12_grad", "c22_precision", "c23_defaults"],
    "stft.py": ["c07_stft", "c10_pipeline", "c11_batch", "c22_precision", "c23_defaults"],
    "nn.py": ["c10_pipeline", "c07_stft", "c18_cache", "c11_batch", "c19_loader"],
    "classic.py": ["c13_models", "c09_history", "c11_batch", "c22_precision", "c23_defaults"],
    "scaling.py": ["c14_scaling", "c11_batch", "c22_precision", "c23_defaults"],
    "fftconvolve.py": ["c15_conv", "c11_batch", "c22_precision", "c23_defaults"],
    "utils.py": ["c16_energetic", "c18_cache", "c19_loader", "c20_cli", "c11_batch"],
    "linalg.py": ["c17_linalg", "c01_tiss", "c02_ip", "c03_ip2", "c04_five", "c06_beam", "c11_batch", "c12_grad", "c22_precision", "c23_defaults"],
    "loader.py": ["c18_cache", "c19_loader", "c20_cli"],
    "separate.py": ["c20_cli"],
    "glu.py": ["c21_neural", "c11_batch", "c19_loader"],
    "blstm.py": ["c21_neural", "c11_batch", "c19_loader"],
    "simple.py": ["c21_neural", "c11_batch"],
    "base.py": ["c08_params", "c09_history", "c01_tiss", "c06_beam"],
    "parameters.py": ["c13_models", "c01_tiss", "c02_ip", "c14_scaling", "c21_neural"],
    "dtypes.py": ["c17_linalg"],
}


def prepare():
    SCR.mkdir(exist_ok=True)
    v = SCR / "verif"
    shutil.rmtree(v, ignore_errors=True)
    v.mkdir()
    for d in ("harness", "spec"):
        shutil.copytree(HERE / d, v / d)
    shutil.copy(HERE / "known_findings.json", v)
    c = v / "harness" / "core.py"
    s = c.read_text()
    s += '''

_rq = run_quint
def run_quint(check, spec, n, max_steps, invariants=(), main=None, init=None, step=None, procs=PROCS, salt=0, timeout=800):
    import pickle
    key = hashlib.sha256(repr((spec, n, max_steps, main, init, step, procs, salt, SEED, [(p.name, p.read_text()) for p in sorted(SPEC.glob("*.qnt"))])).encode()).hexdigest()[:20]
    d = Path(os.environ["MUT_CACHE"]); f = d / (key + ".pkl")
    if spec != "nmftrace":
        if f.exists():
            out = pickle.loads(f.read_bytes())
            for b in out: b.path = "/nonexistent"
            return out
    out = _rq(check, spec, n, max_steps, invariants, main, init, step, procs, salt, timeout)
    if spec != "nmftrace":
        t = d / (key + "." + str(os.getpid())); t.write_bytes(pickle.dumps(out)); t.rename(f)
    return out

def verify_exhaustive(*a, **k):
    return {}

def _v(self, clause, detail, behaviour=None):
    for k in self.known_list:
        if k["clause"] == clause and all(detail.get(f) == v for f, v in k.get("match", {}).items()):
            return
    print("CAUGHT", clause, json.dumps(detail, default=str)[:200]); sys.stdout.flush(); os._exit(1)
Check.violation = _v
'''
    c.write_text(s)
    (SCR / "cache").mkdir(exist_ok=True)


class Sites(ast.NodeVisitor):
    def __init__(self, src, only):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()
        self.out = []
        self.only = only
        self.stack = []

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, e = self.pos(n)
        return self.b[a:e].decode()

    def add(self, n, new, kind):
        a, e = self.pos(n)
        if not self.only or any(self.only in ".".join(self.stack[:i + 1]) for i in range(len(self.stack))):
            self.out.append((a, e, new, kind, n.lineno, ".".join(self.stack)))

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        body = n.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
        for s in body:
            self.visit(s)
        self.stack.pop()

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        for s in n.body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                self.visit(s)
        self.stack.pop()

    def visit_BinOp(self, n):
        ops = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*", ast.Pow: "*", ast.MatMult: "*"}
        a, b = self.text(n.left), self.text(n.right)
        o = ops.get(type(n.op))
        if o and not isinstance(n.left, ast.Constant) or isinstance(getattr(n.left, "value", 0), (int, float)):
            la, le = self.pos(n.left)
            ra, re_ = self.pos(n.right)
            mid = self.b[le:ra].decode()
            old = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**", ast.MatMult: "@"}.get(type(n.op))
            if old and old in mid:
                i = mid.index(old)
                x = le + len(mid[:i].encode())
                if not self.only or self.only in ".".join(self.stack):
                    self.out.append((x, x + len(old), o, "op", n.lineno, ".".join(self.stack)))
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
            self.add(n, f"{self.text(n.left)} {m[type(n.ops[0])]} {self.text(n.comparators[0])}", "cmp")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "bool")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "int")
            if v > 0:
                self.add(n, str(v - 1), "int")
        elif isinstance(v, float):
            self.add(n, repr(v * 3), "float")

    def visit_Raise(self, n):
        pass

    def visit_If(self, n):
        self.add(n.test, f"(not ({self.text(n.test)}))", "ifnot")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n.test, f"(not ({self.text(n.test)}))", "ifnot")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        j = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + j.join(f"({self.text(v)})" for v in n.values) + ")", "bool")
        for v in n.values:
            self.add(n, f"({self.text(v)})", "boolone")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, "(" + self.text(n.operand) + ")", "unary")
        self.generic_visit(n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and not n.args and n.func.attr in ("conj", "clone", "detach", "abs", "sqrt", "contiguous", "reset", "eval", "mean", "sum"):
            self.add(n, self.text(n.func.value), "drop." + n.func.attr)
        f = self.text(n.func)
        sw = {"torch.mean": "torch.sum", "torch.sum": "torch.mean", "torch.sqrt": "torch.abs", "torch.abs": "torch.sqrt", "torch.clamp": "_first", "mag_sq": "mag", "mag": "mag_sq", "hermite": "_first", "min": "max", "max": "min", "torch.conj": "_first", "torch.max": "torch.min", "torch.log": "torch.abs"}
        if f in sw:
            if sw[f] == "_first":
                self.add(n, "(" + self.text(n.args[0]) + ")", "drop " + f)
            else:
                self.add(n.func, sw[f], "fn")
        for i, k in enumerate(n.keywords):
            if k.arg:
                keep = [self.text(a) for a in n.args] + [self.text(x.value) if x.arg is None else f"{x.arg}={self.text(x.value)}" for j, x in enumerate(n.keywords) if j != i]
                keep = [("**" + t if x.arg is None else t) for t, x in zip(keep[len(n.args):], [x for j, x in enumerate(n.keywords) if j != i])]
                self.add(n, f"{f}({', '.join([self.text(a) for a in n.args] + keep)})", "dropkw " + k.arg)
        if len(n.args) >= 2 and all(not isinstance(a, ast.Starred) for a in n.args) and not isinstance(n.args[0], ast.Constant):
            t = [self.text(a) for a in n.args]
            t[0], t[1] = t[1], t[0]
            t += [("**" if x.arg is None else x.arg + "=") + self.text(x.value) for x in n.keywords]
            self.add(n, f"{f}({', '.join(t)})", "swapargs")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if n.col_offset:
            self.add(n, "pass", "delete")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "delete")
        self.generic_visit(n)

    def visit_Expr(self, n):
        if not isinstance(n.value, ast.Constant):
            self.add(n, "pass", "delete")
            self.generic_visit(n)

    def visit_AnnAssign(self, n):
        pass

    def visit_arg(self, n):
        pass


def sites(path, only=None):
    src = path.read_text()
    v = Sites(src, only)
    v.visit(ast.parse(src))
    res, seen = [], set()
    for a, e, new, kind, line, fn in v.out:
        mut = v.b[:a] + new.encode() + v.b[e:]
        if mut in seen or mut == v.b:
            continue
        try:
            compile(mut, "m", "exec")
        except SyntaxError:
            continue
        seen.add(mut)
        res.append((a, e, v.b[a:e].decode(), new, kind, line, fn, mut))
    return res


def one(job):
    rel, s, checks, w = job
    a, e, old, new, kind, line, fn, mut = s
    repo = SCR / f"r{w}_{os.getpid()}"
    if not repo.exists():
        repo.mkdir()
        for x in ("torchiva",):
            shutil.copytree(f"/repo/{x}", repo / x, ignore=shutil.ignore_patterns("__pycache__"))
        for x in Path("/repo").iterdir():
            if x.is_file():
                shutil.copy(x, repo)
    (repo / rel).write_bytes(mut)
    res = {}
    try:
        for c in checks:
            env = dict(os.environ, TORCHIVA_REPO=str(repo), MUT_CACHE=str(SCR / "cache"), OMP_NUM_THREADS="1")
            try:
                r = subprocess.run(["/opt/venv/bin/python", str(SCR / "verif" / "harness" / (c + ".py"))], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
                res[c] = r.returncode
                if r.returncode == 2:
                    res["log"] = r.stdout[-600:]
                if r.returncode == 1:
                    res["log"] = ([l for l in r.stdout.splitlines() if "CAUGHT" in l] or [r.stdout[-300:]])[-1][:300]
            except subprocess.TimeoutExpired:
                res[c] = 9
            if res[c] == 1 and not os.environ.get("MUT_ALL"):
                break
    finally:
        shutil.copyfile(f"/repo/{rel}", repo / rel)
    return dict(file=rel, line=line, fn=fn, kind=kind, old=old[:120], new=new[:120], results=res, caught=1 in [v for k, v in res.items() if k != "log"])


def main():
    out = Path(sys.argv[1])
    prepare()
    jobs = []
    for arg in sys.argv[2:]:
        f, _, only = arg.partition(":")
        name = Path(f).name
        checks = CHECKS.get(name, [])
        if os.environ.get("MUT_CHECKS"):
            checks = os.environ["MUT_CHECKS"].split(",")
        ss = sites(Path("/repo") / f, only or None)
        jobs += [(f, s, checks) for s in ss]
    k = int(os.environ.get("MUT_SAMPLE", "0"))
    if k and len(jobs) > k:
        random.Random(int(os.environ.get("MUT_SEED", "0"))).shuffle(jobs)
        jobs = jobs[:k]
    need = sorted({c for j in jobs for c in j[2]})
    print(len(jobs), "mutants; checks", need, flush=True)
    # fill the cache with the unchanged code
    for c in need:
        env = dict(os.environ, TORCHIVA_REPO="/repo", MUT_CACHE=str(SCR / "cache"), PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run(["/opt/venv/bin/python", str(SCR / "verif" / "harness" / (c + ".py"))], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        assert r.returncode == 0, (c, r.stdout[-800:])
    W = int(os.environ.get("MUT_PROCS", "7"))
    n = caught = 0
    with cf.ProcessPoolExecutor(W) as ex, open(out, "w") as fo:
        for r in ex.map(one, [(f, s, c, 0) for f, s, c in jobs]):
            n += 1
            caught += r["caught"]
            fo.write(json.dumps(r) + "\n")
            fo.flush()
            if n % 25 == 0:
                print(n, caught, flush=True)
    print("done", n, "caught", caught)
    for d in SCR.glob("r0_*"):
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
