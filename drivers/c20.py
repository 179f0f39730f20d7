"""Real processes, a real loopback HTTP server (served by this process step by step, so that the
schedule is the one of the history) and real cache directories in scratch."""
import gc
import json
import os
import select
import shutil
import signal
import socket
import struct
import sys
import tempfile
import threading
import time
import zlib
import numpy as np

for k in list(os.environ):
    if k.lower().endswith("_proxy"):
        del os.environ[k]
os.environ["no_proxy"] = "*"
HOME = tempfile.mkdtemp(prefix="c20home", dir=os.environ["TMPDIR"])
os.environ["HOME"] = HOME

from pycomlink.processing.pytorch_utils import inference_utils as pt
from pycomlink.processing.tensorflow_utils import inference_utils as tf

try:  # lets urllib set up its opener once, before the processes are forked
    import urllib.request
    urllib.request.urlopen("http://127.0.0.1:9/", timeout=1)
except OSError:
    pass
PART = 65536
TINY = 8  # bytes per part in some worlds
WAIT = 20.0
# two of the same name, two that differ in case, query, escapes, slashes, long ones
PATHS = ["/a/model.pt", "/b/model.pt", "/a/model.pt?v=2", "/a/c/model.pt", "/a/Model.pt", "/A/model.pt", "/a/model.pt?v=3",
         "/a/model%2Ept", "/a//model.pt", "/model.pt", "/a/model", "/a/model.pt/", "/a/model.pt;x=1", "/b/model.pt?v=2", "/get?file=a/model.pt", "/get?file=b/model.pt", "/b/model.pt/",
         "/a/model.pt?sig=" + "0123456789abcdef" * 20, "/b/model.pt?sig=" + "0123456789abcdef" * 20, "/a/model.pt?sig=" + "0123456789abcdef" * 19 + "fedcba9876543210",
         "/" + "n" * 180 + ".weights.h5"]

# pairs that a cache could confuse
SIMILAR = [("/a/model.pt", p) for p in PATHS[1:]] + 3 * [
    ("/get?file=a/model.pt", "/get?file=b/model.pt"), ("/a/model.pt?v=2", "/a/model.pt?v=3"), ("/a/model.pt/", "/b/model.pt/"), (PATHS[-4], PATHS[-2]), (PATHS[-4], PATHS[-3])]


def content(u, v, n, part=PART):
    head = f"<{u}.{v}>".encode()
    return b"".join((head + str(i).encode() + b" " * part)[:part] for i in range(n))


class Watch:
    """Observes the cache directory at every call into the interpreter's builtins and file
    functions, which is where a process can be killed: a file name under which something other
    than a complete content was visible is remembered."""

    def __init__(self, d, n, part):
        self.d, self.n, self.part, self.seen, self.bad = os.path.expanduser(d), n, part, {}, set()

    def __call__(self, frame, event, arg):
        if event not in ("c_call", "c_return", "c_exception"):
            return
        try:
            for x in os.scandir(self.d):
                st = x.stat()
                key = (st.st_ino, st.st_size, st.st_mtime_ns)
                if self.seen.get(x.name) != key:
                    self.seen[x.name] = key
                    if x.name not in self.bad and identify(x.path, self.n, self.part) is None:
                        self.bad.add(x.name)
        except OSError:
            pass


def identify(path, n, part=PART):
    """(u, version) of a complete content, else None"""
    with open(path, "rb") as f:
        b = f.read()
    try:
        u, v = b[1:b.index(b">")].split(b".")
        u, v = int(u), int(v)
    except ValueError:
        return None
    return (u, v) if b == content(u, v, n, part) else None


def dirsize(d):
    t = 0
    for r, _, fs in os.walk(d):
        for f in fs:
            try:
                t += os.path.getsize(os.path.join(r, f))
            except OSError:
                pass
    return t


class Worker:
    """A process that calls the cache functions; commands and replies as JSON lines."""

    def __init__(self, lib, host=None):
        self.host = host
        if host:  # one of the threads of a process
            r2, w1 = host
        else:
            self.pid, [(r2, w1)] = Worker.spawn(lib, 1)
        self.w, self.r = os.fdopen(w1, "w"), r2
        self.busy, self.conn, self.sent, self.v, self.u, self.d = False, None, 0, 0, 0, ""

    @staticmethod
    def spawn(lib, n):
        """A process with n threads, each with its own pipes."""
        pipes = [os.pipe() + os.pipe() for _ in range(n)]
        gc.freeze()
        pid = os.fork()
        if pid == 0:
            try:
                gc.disable()
                os.dup2(os.open(os.devnull, os.O_RDWR), 0)
                for fd in (1, 2):
                    os.dup2(0, fd)
                keep = {f for r1, w1, r2, w2 in pipes for f in (r1, w2)}
                for fd in range(3, 512):
                    if fd not in keep:
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                ts = [threading.Thread(target=Worker.loop, args=(os.fdopen(r1), os.fdopen(w2, "w"), lib, n == 1)) for r1, w1, r2, w2 in pipes[1:]]
                for t in ts:
                    t.start()
                r1, w1, r2, w2 = pipes[0]
                Worker.loop(os.fdopen(r1), os.fdopen(w2, "w"), lib, n == 1)
                for t in ts:
                    t.join()
            finally:
                os._exit(0)
        for r1, w1, r2, w2 in pipes:
            os.close(r1)
            os.close(w2)
        return pid, [(r2, w1) for r1, w1, r2, w2 in pipes]

    @staticmethod
    def loop(inp, out, lib, watch):
        for line in inp:
            c = json.loads(line)
            seen = Watch(c["dir"], c["n"], c["part"])
            if watch and c["op"] == "get" and c["watch"]:
                sys.setprofile(seen)
            kw = {"force_download": c.get("force", False)} if c.get("force") or os.getpid() % 2 else {}
            try:
                if c["op"] == "get":
                    if lib == "pt":
                        p = pt.download_and_cache_model(c["url"], c["dir"], **kw)
                    else:
                        p = tf.download_and_cache(c["url"], c["dir"], **kw)
                    sys.setprofile(None)
                    a = {"path": str(p), "id": identify(p, c["n"], c["part"]), "bad": os.path.basename(p) in seen.bad}
                elif c["op"] == "list":
                    a = {"list": [[str(p), identify(p, c["n"], c["part"])] for p in pt.list_cached_models(c["dir"])]}
                else:
                    pt.clear_model_cache(c["dir"])
                    a = {}
            except Exception as e:
                a = {"exc": f"{type(e).__name__}: {str(e)[:100]}"}
            sys.setprofile(None)
            out.write(json.dumps(a) + "\n")
            out.flush()

    def send(self, c):
        self.w.write(json.dumps(c) + "\n")
        self.w.flush()

    def reply(self):
        b = b""
        while not b.endswith(b"\n"):
            x = os.read(self.r, 65536)
            if not x:
                return {"died": True}
            b += x
        return json.loads(b)

    def kill(self):
        if not self.host:
            end(self.pid)
        if self.conn:
            self.conn.close()
        self.w.close()
        os.close(self.r)


def end(pid):
    try:
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    os.waitpid(pid, 0)


POOL = {"pt": [], "tf": []}  # idle processes, used again


class World:
    def __init__(self, P, U, D, N, lib, pick=0, threads=False):
        """threads: the P processes of the history are threads of one process"""
        self.N, self.lib, self.U = N, lib, U
        self.part = TINY if pick % 3 == 0 else PART
        self.watch = pick % 2 == 0
        self.pid = None
        g = np.random.RandomState(pick)
        self.paths = list(SIMILAR[g.randint(len(SIMILAR))])[:U]
        rest = [p for p in PATHS if p not in self.paths]
        self.paths += [rest[i] for i in g.permutation(len(rest))[:U - len(self.paths)]]
        self.root = tempfile.mkdtemp(prefix="w", dir=HOME)
        self.ls = socket.socket()
        self.ls.bind(("127.0.0.1", 0))
        self.ls.listen(16)
        self.base = f"http://127.0.0.1:{self.ls.getsockname()[1]}"
        self.srv = [1] * U
        self.procs = [None] * P
        if threads:
            self.pid, ps = Worker.spawn(lib, P)
            self.procs = [Worker(lib, h) for h in ps]
        # torch: one directory is given relative to the home directory
        self.abs = [os.path.join(self.root, f"sub{d}", "cache") for d in range(D)]
        self.dirs = [p if lib == "tf" or d % 2 == 0 else "~" + p[len(HOME):] for d, p in enumerate(self.abs)]
        self.extra = 0

    def proc(self, i):
        if self.procs[i] is None:
            self.procs[i] = POOL[self.lib].pop() if POOL[self.lib] else Worker(self.lib)
        return self.procs[i]

    def outcome(self, w, contact):
        """What happens next: the call of w ends or (if contact) the server is contacted."""
        end = time.time() + WAIT
        while True:
            fds, _, _ = select.select([w.r, self.ls], [], [], max(0, end - time.time()))
            if not fds:
                w.kill()
                self.procs[self.procs.index(w)] = None
                return ["hang", 0]
            if self.ls in fds:
                c, _ = self.ls.accept()
                c.settimeout(WAIT)
                req = b""
                try:
                    while b"\r\n\r\n" not in req:
                        x = c.recv(65536)
                        if not x:
                            break
                        req += x
                except OSError:
                    pass
                path = req.split(b" ")[1].decode() if req.count(b" ") >= 2 else ""
                if not contact or not req.startswith(b"GET ") or path not in self.paths:
                    self.extra += 1
                    c.close()
                    continue
                u = self.paths.index(path)
                w.conn, w.sent, w.u, w.v = c, 0, u, self.srv[u]
                return ["dl", w.v if u == w.want else -1]
            a = w.reply()
            w.busy = False
            if w.conn:
                w.conn.close()
                w.conn = None
            if "died" in a:
                w.kill()
                self.procs[self.procs.index(w)] = None
                return ["died", 0]
            if "exc" in a:
                return ["exc", 0]
            if "list" in a:
                got = [x[1] for x in a["list"]]
                if any(g is None for g in got) or len({g[0] for g in got}) < len(got):
                    return ["list", 1000 + len(got)]
                return ["list", sum(2 ** (g[0] - 1) for g in got)]
            if "id" in a:
                g = a["id"]
                if g is None or a["bad"] or g[0] != w.want + 1 or not os.path.realpath(a["path"]).startswith(os.path.realpath(w.dir) + os.sep):
                    return ["ret", -1]
                return ["ret", g[1]]
            return ["none", 0]

    def step(self, x):
        op = x["op"]
        if op == "bump":
            self.srv[x["u"] - 1] += 1
            return ["none", 0]
        if op in ("list", "clear"):
            if self.lib == "tf":
                if op == "clear":
                    shutil.rmtree(self.abs[x["d"] - 1], ignore_errors=True)
                return ["none", 0] if op == "clear" else None
            free = [i for i, w in enumerate(self.procs) if w is None or not w.busy]
            w = self.proc(free[0]) if free else None
            if w is None:
                w = Worker(self.lib)
                self.procs.append(w)
            w.busy = True
            w.send({"op": op, "dir": self.dirs[x["d"] - 1], "n": self.N, "part": self.part})
            r = self.outcome(w, False)
            left = os.listdir(self.abs[x["d"] - 1]) if op == "clear" and os.path.isdir(self.abs[x["d"] - 1]) else []
            return ["left", len(left)] if left and r == ["none", 0] else r
        w = self.proc(x["p"] - 1)
        if op == "get":
            w.want, w.dir, w.busy = x["u"] - 1, self.abs[x["d"] - 1], True
            w.send({"op": op, "url": self.base + self.paths[x["u"] - 1], "dir": self.dirs[x["d"] - 1], "force": x["force"], "n": self.N, "part": self.part, "watch": self.watch})
            return self.outcome(w, True)
        if w.conn is None:
            return ["lost", 0]
        if op == "kill":
            if w.sent == 0 and w.pid % 2:  # killed between the answer of the server and the first data
                n = len(os.listdir(w.dir)) if os.path.isdir(w.dir) else 0
                try:
                    w.conn.sendall(f"HTTP/1.1 200 OK\r\nContent-Length: {self.N * self.part}\r\nConnection: close\r\n\r\n".encode())
                except OSError:
                    pass
                end = time.time() + 0.06
                while time.time() < end and (not os.path.isdir(w.dir) or len(os.listdir(w.dir)) == n):
                    time.sleep(0.001)
            w.kill()
            self.procs[x["p"] - 1] = None
            return ["none", 0]
        body = content(w.u + 1, w.v, self.N, self.part)
        head = f"HTTP/1.1 200 OK\r\nContent-Length: {len(body)}\r\nConnection: close\r\n\r\n".encode() if w.sent == 0 else b""
        try:
            if op == "part":
                before = dirsize(w.dir)
                w.conn.sendall(head + body[w.sent * self.part:(w.sent + 1) * self.part])
                w.sent += 1
                if w.sent == self.N:
                    w.conn.close()
                    return self.outcome(w, True)
                end = time.time() + 0.06
                while self.part > TINY and time.time() < end and dirsize(w.dir) <= before:
                    time.sleep(0.001)
                return ["none", 0]
            kind = x["kind"]
            if kind == "http" and w.sent == 0:
                w.conn.sendall(b"HTTP/1.1 503 Service Unavailable\r\nContent-Length: 5\r\nConnection: close\r\n\r\nsorry")
            elif kind == "reset":
                if w.sent:
                    w.conn.sendall(b"x")
                w.conn.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            else:
                w.conn.sendall(head + body[w.sent * self.part:w.sent * self.part + self.part // 3])
        except OSError:
            pass
        w.conn.close()
        w.conn = None
        return self.outcome(w, True)

    def close(self):
        for w in self.procs:
            if w and (w.host or w.busy or w.conn or len(POOL[self.lib]) > 4):
                w.kill()
            elif w:
                POOL[self.lib].append(w)
        if self.pid:
            end(self.pid)
        self.ls.setblocking(False)
        try:
            while True:
                self.ls.accept()
                self.extra += 1
        except OSError:
            pass
        self.ls.close()
        shutil.rmtree(self.root, ignore_errors=True)


def replay(case, job, ctx):
    msgs = []
    k = zlib.crc32(repr(case["hist"]).encode())
    for lib in ("pt", "tf"):
        thr = k % 4 == 0 and not any(h["x"]["op"] == "kill" for h in case["hist"])
        w = World(case["P"], case["U"], case["D"], case["N"], lib, pick=k >> 4, threads=thr)
        try:
            for i, h in enumerate(case["hist"]):
                got = w.step(h["x"])
                if got is not None and got != h["r"]:
                    msgs.append(f"{lib} step {i + 1} {h['x']}: {got} instead of {h['r']}")
                    break
            else:
                # afterwards a new process gets what the history has left in the cache
                w.procs.append(None)
                p = len(w.procs)
                for d in range(case["D"]):
                    for u in range(case["U"]):
                        v = case["fin"][d][u]
                        got = w.step({"op": "get", "p": p, "d": d + 1, "u": u + 1, "force": False})
                        want = ["ret", v] if v else ["dl", w.srv[u]]
                        if got != want:
                            msgs.append(f"{lib} after the history, URL {u + 1}: {got} instead of {want}")
                        if w.procs[p - 1] and w.procs[p - 1].conn:
                            w.step({"op": "fail", "p": p, "kind": "http"})
        finally:
            w.close()
        if w.extra:
            msgs.append(f"{lib}: unexpected server contact")
    return msgs


def record(rng, job, tier, progress):
    for i in range(job["n"]):
        lib = "pt" if i % 2 else "tf"
        P, U, D, N = int(rng.randint(1, 4)), int(rng.randint(1, 5)), int(rng.randint(1, 3)), int(rng.randint(1, 4))
        thr = bool(rng.rand() < 0.25)
        w = World(P, U, D, N, lib, pick=int(rng.randint(10**6)), threads=thr)
        steps, res = [], []
        # the driver's own view of what is going on, only to choose enabled steps
        dl = [None] * P
        biased = rng.rand() < 0.5
        ev = {"P": P, "U": U, "D": D, "N": N, "lib": lib, "steps": steps, "res": res, "extra": 0, "exc": ""}
        try:
            for _ in range(int(rng.randint(5, 40))):
                act = [p for p in range(P) if dl[p]]
                idle = [p for p in range(P) if not dl[p]]
                r = rng.rand()
                if act and (r < 0.55 or not idle):
                    p = act[rng.randint(len(act))]
                    q = rng.rand()
                    x = {"op": "part", "p": p + 1} if q < (0.85 if thr else 0.75) else {"op": "kill", "p": p + 1} if q < 0.85 else {
                        "op": "fail", "p": p + 1, "kind": ["short", "reset", "http" if w.procs[p].sent == 0 else "short"][rng.randint(3)]}
                elif r < 0.9 and idle:
                    p = idle[rng.randint(len(idle))]
                    x = {"op": "get", "p": p + 1, "d": int(rng.randint(D)) + 1, "u": 1 if biased else int(rng.randint(U)) + 1, "force": bool(rng.rand() < 0.3)}
                else:
                    x = [{"op": "bump", "u": int(rng.randint(U)) + 1}, {"op": "list", "d": int(rng.randint(D)) + 1},
                         {"op": "clear", "d": int(rng.randint(D)) + 1}][rng.choice(3, p=[.4, .4, .2])]
                    if x["op"] == "list" and lib == "tf":
                        continue
                    if x["op"] == "clear" and any(a == x["d"] for a in dl):
                        continue
                progress(dict(ev, steps=steps + [x]))
                got = w.step(x)
                steps.append(x)
                res.append(got)
                if "p" in x:
                    dl[x["p"] - 1] = (dl[x["p"] - 1] or x.get("d")) if got[0] == "dl" or (x["op"] == "part" and got[0] == "none") else None
                if got[0] in ("hang", "died", "lost"):
                    break
        finally:
            w.close()
        ev["extra"] = w.extra
        yield ev
