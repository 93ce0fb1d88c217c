"""Model cache: behaviours of spec/cache.qnt driven into real processes through a loopback server.

Every load runs in a process of its own with a scratch HOME.  This process is the server: it decides when
each piece of a file is delivered, when a connection breaks, and when a process dies.
"""
import hashlib
import io
import json
import os
import random
import resource
import select
import shutil
import signal
import socket
import sys
import tempfile
import time
from pathlib import Path

import torch
import yaml

from core import SEED, TIER, main_of, run_quint, verify_exhaustive
from bss import tv

WAIT = 30.0


def digest(state, cfg):
    h = hashlib.sha256()
    for k in sorted(state):
        h.update(k.encode())
        h.update(state[k].detach().cpu().contiguous().numpy().tobytes())
    h.update(json.dumps(cfg, sort_keys=True).encode())
    return h.hexdigest()


def visible(sep):
    """What can be seen of a loaded separator: its weights and parameters."""
    return digest(sep.state_dict(), [getattr(sep, "n_iter", None), getattr(sep, "algo", None), str(getattr(sep.stft, "hop_length", None)), str(getattr(sep.stft, "n_fft", None))])


def make_model(u):
    """Both files of a model and what loading it must give."""
    torch.manual_seed(100 + u)
    kw = dict(n_freq=65, n_mels=8 + u, n_hidden=40)
    src = tv.models.SimpleModel(**kw)
    cfg = dict(n_fft=128, n_iter=2 + u, hop_length=32 * (1 + u % 2), n_src=2, algo="tiss", proj_back_mic=0,
               source_model=dict(name="torchiva.models.SimpleModel", kwargs=kw))
    sep = tv.nn.BSSSeparator(**dict(cfg, source_model=src))
    f = io.BytesIO()
    torch.save(sep.state_dict(), f)
    return {"model_weights.ckpt": f.getvalue(), "model_config.yaml": yaml.safe_dump(cfg).encode()}, visible(sep)


def dies(home, kind, k, room):
    """Ends this process at the k-th access to the files of the cache: before it, or inside of the writing that follows."""
    count = [0]

    def hook(event, args):
        if event == "open":
            path, mode, flags = args
            writes = any(c in mode for c in "wax+") if isinstance(mode, str) else bool(flags & (os.O_WRONLY | os.O_RDWR))
            if not writes or not isinstance(path, (str, os.PathLike)):
                return
        elif event in ("os.rename", "os.remove", "os.mkdir", "os.link", "os.symlink", "os.truncate"):
            path = args[0]
        else:
            return
        if not str(path).startswith(home):
            return
        count[0] += 1
        if count[0] == k:
            if kind == "before":
                os.kill(os.getpid(), signal.SIGKILL)
            elif event == "open":
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (room, room))

    sys.addaudithook(hook)


def pauses(home, k, tell, wait):
    """Stops this process right before its k-th access to the files of the cache, until it is told to go on."""
    count = [0]

    def hook(event, args):
        if event not in ("open", "os.rename", "os.remove", "os.mkdir", "os.link", "os.symlink", "os.truncate", "os.listdir", "os.scandir", "shutil.move"):
            return
        if not isinstance(args[0], (str, os.PathLike)) or not str(args[0]).startswith(home):
            return
        count[0] += 1
        if count[0] == k:
            os.write(tell, b"P")
            os.read(wait, 1)

    sys.addaudithook(hook)


class Child:
    def __init__(self, url, home, death=None, pause=None):
        r, w = os.pipe()
        r2, w2 = os.pipe()
        self.pipe = r
        self.go = w2
        self.pid = os.fork()
        if self.pid == 0:
            # the server's sockets are not the process's business
            for fd in range(3, 256):
                if fd not in (w, r2):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
            res = {"outcome": "failed", "error": "?"}
            try:
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
                for k in ("HOME", "XDG_CACHE_HOME", "TORCH_HOME"):
                    os.environ[k] = home
                for k in list(os.environ):
                    if k.lower().endswith("_proxy"):
                        del os.environ[k]
                os.environ["no_proxy"] = "*"
                if death is not None:
                    dies(home, *death)
                if pause is not None:
                    pauses(home, pause, w, r2)
                sep = tv.load_separator(url)
                res = {"outcome": "ok", "visible": visible(sep)}
            except BaseException as e:  # noqa: BLE001
                res = {"outcome": "failed", "error": f"{type(e).__name__}: {e}"[:500]}
            os.write(w, json.dumps(res).encode())
            os._exit(0)
        os.close(w)
        os.close(r2)
        self.conn = None
        self.name = None
        self.sent = 0

    def close(self):
        if self.conn is not None:
            self.conn.close()
            self.conn = None

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)
        os.close(self.pipe)
        os.close(self.go)
        self.close()

    def resume(self):
        os.write(self.go, b"G")

    def result(self, data=b""):
        while True:
            b = os.read(self.pipe, 65536)
            if not b:
                break
            data += b
        os.waitpid(self.pid, 0)
        os.close(self.pipe)
        os.close(self.go)
        self.close()
        return json.loads(data) if data else {"outcome": "died"}


class Server:
    def __init__(self, models):
        self.models = models
        self.sock = None
        self.port = None
        self.up()

    def up(self):
        if self.sock is None:
            self.sock = socket.socket()
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            self.sock.bind(("0.0.0.0", self.port or 0))
            self.port = self.sock.getsockname()[1]
            self.sock.listen(16)

    def down(self):
        if self.sock is not None:
            self.sock.close()
            self.sock = None

    def next_event(self, child, urls, wait=WAIT):
        """What the running process does next: ("request", name of file), ("pause", None) or ("exit", result)."""
        end = time.time() + wait
        while True:
            fds = [child.pipe] + ([self.sock] if self.sock else [])
            r, _, _ = select.select(fds, [], [], max(0.0, end - time.time()))
            if not r:
                return "hang", None
            if self.sock in r:
                conn, _ = self.sock.accept()
                data = b""
                conn.settimeout(WAIT)
                while b"\r\n\r\n" not in data:
                    piece = conn.recv(65536)
                    if not piece:
                        break
                    data += piece
                line = data.split(b"\r\n")[0].decode(errors="replace").split(" ")
                if len(line) < 2:
                    conn.close()
                    continue
                host = [h.split(b":")[1].strip().decode() for h in data.split(b"\r\n") if h.lower().startswith(b"host:")]
                path = (host[0] if host else "") + line[1]
                body = None
                for u, prefix in urls.items():
                    for fn, content in self.models[u][0].items():
                        if path == f"{prefix}/{fn}":
                            body, name = content, fn
                if body is None:
                    conn.sendall(b"HTTP/1.0 404 Not Found\r\nContent-Length: 0\r\n\r\n")
                    conn.close()
                    continue
                if line[0] == "HEAD":
                    conn.sendall(b"HTTP/1.0 200 OK\r\nContent-Length: %d\r\n\r\n" % len(body))
                    conn.close()
                    continue
                child.close()
                child.conn, child.body, child.name, child.sent = conn, body, name, 0
                return "request", name
            if child.pipe in r:
                first = os.read(child.pipe, 1)
                if first == b"P":
                    return "pause", None
                return "exit", child.result(first)

    def serve(self, child, urls, wait=WAIT):
        """Deliver everything a process asks for until something else happens to it."""
        while True:
            ev, what = self.next_event(child, urls, wait)
            if ev != "request":
                return ev, what
            for k in range(CH):
                try:
                    self.piece(child, k, CH)
                except OSError:
                    break

    def piece(self, child, k, n):
        """Deliver the k-th of n pieces."""
        c = child.conn
        if k == 0:
            c.sendall(b"HTTP/1.0 200 OK\r\nContent-Type: application/octet-stream\r\nContent-Length: %d\r\n\r\n" % len(child.body))
        lo, hi = len(child.body) * k // n, len(child.body) * (k + 1) // n
        c.sendall(child.body[lo:hi])
        child.sent = k + 1
        if hi == len(child.body):
            child.close()


CH = 3
H = "127.0.0.1"
LONG = "x" * 90
# three addresses that are easily taken for each other
URLS = [
    (f"{H}/a/model", f"{H}/b/model", f"{H}/a/model/small"),
    (f"{H}/a/model", f"{H}/b/other", f"{H}/model"),
    (f"{H}/a/model", f"127.0.0.2/a/model", f"{H}/a/model/a/model"),
    (f"{H}/a/model", f"{H}/A/model", f"{H}/a/Model"),
    (f"{H}/a/b/model", f"{H}/a-b/model", f"{H}/a_b/model"),
    (f"{H}/v1/{LONG}/a/model", f"{H}/v1/{LONG}/b/model", f"{H}/v2/{LONG}/a/model"),
    (f"{H}/a/model.v1", f"{H}/a/model.v2", f"{H}/a/model"),
    (f"{H}/a/my%20model", f"{H}/a/my%2520model", f"{H}/b/my%20model"),
    (f"{H}/a/model?rev=1", f"{H}/a/model?rev=2", f"{H}/a/model"),
    (f"{H}/get?model=a&v=1", f"{H}/get?v=1&model=a", f"{H}/get?model=a"),
    (f"{H}/a;v=1/model", f"{H}/a;v=2/model", f"{H}/a/model"),
]


def together(check, b, rng, srv, home, urls, full, models, kids, d):
    """Two loads at once, one of them held up right before one of its accesses to the files of the cache."""
    home = tempfile.mkdtemp(prefix="home_", dir=home)
    u1 = rng.choice(list(urls))
    u2 = u1 if rng.random() < 0.8 else rng.choice(list(urls))
    at = rng.randint(1, 10)
    death = (rng.choice(["before", "inside"]), rng.randint(1, 6), rng.choice([0, 100, 4000])) if rng.random() < 0.25 else None
    d.update(step="two at once", held=at, death=death, url=[u1, u2])
    res = {}
    kids[1] = Child(full[u1], home, None, at)
    ev, res[1] = srv.serve(kids[1], urls)
    held = ev == "pause"
    check.count(f"held up {held}")
    if held:
        kids[2] = Child(full[u2], home, death)
        ev, res[2] = srv.serve(kids[2], urls, 4.0)
        kids[1].resume()
        late = ev == "hang"  # it waits for the other one
        ev, res[1] = srv.serve(kids[1], urls)
        if late:
            check.count("one load waits for the other")
            ev2, res[2] = srv.serve(kids[2], urls)
            ev = ev2 if ev2 == "hang" else ev
    if ev == "hang":
        check.violation("a load does not end", d, b)
        return False
    kids.clear()
    for k, u in ((1, u1), (2, u2)):
        if k not in res:
            continue
        check.comparisons += 1
        if res[k]["outcome"] != "ok" and not (k == 2 and death):
            check.violation("a load fails although nothing failed", dict(d, result=res[k]), b)
            return False
        if res[k]["outcome"] == "ok" and res[k]["visible"] != models[u][1]:
            check.violation("a model that is not the one of its URL was loaded", d, b)
            return False
    return True


def replay(check, b, i, models):
    rng = random.Random(SEED * 1000003 + i)
    srv = Server(models)
    home = tempfile.mkdtemp(prefix="home_", dir=check.scratch)
    urls = {u + 1: p for u, p in enumerate(rng.choice(URLS))}
    slash = "/" if rng.random() < 0.2 else ""
    full = {u: f"http://{p.split('/')[0]}:{srv.port}/{p.split('/', 1)[1]}{slash}" for u, p in urls.items()}
    kids = {}
    owner = {}
    counts = {}
    d = dict(urls=urls, behaviour=i)
    check.traces += 1
    try:
        for k in range(1, len(b)):
            st, prev = b[k], b[k - 1]
            act, p = st["action"], st["who"]
            d.update(step=k, action=act)
            check.count(f"step {act}")
            if act == "begin":
                owner[p] = st["procs"][p]["url"]
                counts[p] = 0
                kids[p] = Child(full[owner[p]], home)
                continue
            if act == "outage":
                srv.up() if st["serverUp"] else srv.down()
                continue
            c = kids.get(p)
            if act == "hit":
                continue  # nothing to be seen from outside
            if act == "request":
                ev, what = srv.next_event(c, urls)
                if ev == "hang":
                    check.violation("a load does not end", d, b)
                    return
                if ev == "exit":
                    if what["outcome"] == "ok" and what["visible"] != models[owner[p]][1]:
                        check.violation("a model that is not the one of its URL was loaded", d, b)
                    elif what["outcome"] != "ok":
                        check.violation("a load fails although nothing failed", dict(d, result=what), b)
                    kids.pop(p)
                    return
                counts[p] += 1
            elif act in ("chunk", "publish"):
                n = CH
                srv.piece(c, prev["procs"][p]["got"], n)
            elif act in ("finish", "unreachable", "cut", "refuse"):
                if act == "cut":
                    pieces = prev["procs"][p]["got"]
                    if pieces == 0 and rng.random() < 0.5:
                        c.conn.sendall(b"HTTP/1.0 200 OK\r\nContent-Length: %d\r\n\r\n" % len(c.body))
                    c.close()
                elif act == "refuse":
                    c.conn.sendall(rng.choice([b"HTTP/1.0 404 Not Found\r\nContent-Length: 3\r\n\r\nno!",
                                               b"HTTP/1.0 500 Internal Server Error\r\nContent-Length: 5\r\n\r\nsorry"]))
                    c.close()
                ev, what = srv.next_event(c, urls)
                tries = 0
                while ev == "request" and act in ("cut", "refuse") and tries < 5:
                    tries += 1  # it tries again: fail again
                    c.close()
                    ev, what = srv.next_event(c, urls)
                check.comparisons += 1
                if ev == "hang":
                    check.violation("a load does not end", d, b)
                    return
                if ev == "request":
                    if act == "finish":
                        check.violation("a complete model is requested again", dict(d, file=what), b)
                    return
                kids.pop(p)
                check.count(f"load {what['outcome']}")
                want = "ok" if act == "finish" else "failed"
                if what["outcome"] == "ok" and what["visible"] != models[owner[p]][1]:
                    check.violation("a model that is not the one of its URL was loaded", d, b)
                    return
                if what["outcome"] != want:
                    check.violation("a load fails although nothing failed" if want == "ok" else
                                    "a load succeeds although a download failed", dict(d, result=what), b)
                    return
            elif act == "kill":
                if prev["procs"][p]["got"] > 0 and rng.random() < 0.5:
                    time.sleep(rng.random() * 0.004)
                c.kill()
                kids.pop(p)
        # afterwards, with every process gone, all models can be loaded
        for c in kids.values():
            c.kill()
        kids = {}
        srv.up()
        if not together(check, b, rng, srv, home, urls, full, models, kids, d):
            return
        # one more process dies, at an access to the files of its model
        u = rng.choice(list(urls))
        death = (rng.choice(["before", "inside"]), rng.randint(1, 8), rng.choice([0, 10, 100, 1000, 4000]))
        c = kids[0] = Child(full[u], home, death)
        d.update(step="a process dies", death=death, url=u)
        ev, what = srv.serve(c, urls)
        check.comparisons += 1
        check.count(f"death {death[0]} {what['outcome'] if what else ev}")
        if ev == "hang":
            check.violation("a load does not end", d, b)
            return
        kids = {}
        if what["outcome"] == "ok" and what["visible"] != models[u][1]:
            check.violation("a model that is not the one of its URL was loaded", d, b)
            return
        for u in urls:
            c = kids[0] = Child(full[u], home)
            n = 0
            while True:
                ev, what = srv.next_event(c, urls)
                if ev != "request":
                    break
                n += 1
                for k in range(CH):
                    srv.piece(c, k, CH)
            check.comparisons += 1
            d.update(step="afterwards", url=u)
            if ev == "hang":
                check.violation("a load does not end", d, b)
                return
            kids = {}
            if what["outcome"] != "ok":
                check.violation("a model cannot be loaded any more after failures", dict(d, result=what), b)
                return
            if what["visible"] != models[u][1]:
                check.violation("a model that is not the one of its URL was loaded", d, b)
                return
            if n and all(b[-1]["cached"][(u, f)] for f in (0, 1)):
                check.violation("a complete model is requested again", d, b)
                return
    finally:
        for c in kids.values():
            try:
                c.kill()
            except OSError:
                pass
        srv.down()
        shutil.rmtree(home, ignore_errors=True)


def run(check):
    invs = ["cachedForGood", "completeWhenOk", "okMeansCached", "partsNotCounted"]
    verify_exhaustive(check, "cache", invs, main="cacheSmall")
    n = 96 if TIER == "quick" else 900
    behs = run_quint(check, "cache", n, 90, invariants=invs, main="cacheFull", step="driven")
    models = {u: make_model(u) for u in (1, 2, 3)}
    for i, b in enumerate(behs):
        replay(check, b, i, models)
        check.sample({"loads": b[-1]["loads"]})
    check.assumptions.append("the server announces the length of every file (a truncated answer without length cannot be told from a complete one)")


if __name__ == "__main__":
    main_of(run, "C18")
