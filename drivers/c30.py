import importlib
import importlib.abc
import importlib.machinery
import io
import os
import shutil
import socket
import subprocess
import sys
import tempfile
import threading
import types
import contextlib
import torch
import numpy as np
import xarray as xr
from urllib.parse import urlsplit
from venc import *

torch.set_num_threads(1)
BASE = os.environ["TMPDIR"]
for k in list(os.environ):
    if k.lower().endswith("_proxy"):
        del os.environ[k]


# ---------------------------------------------------------------- dispatch
class Const(torch.nn.Module):
    def __init__(self, v: float):
        super().__init__()
        self.v = v

    def forward(self, x: torch.Tensor):
        return x.sum() * 0 + self.v


def script(v):
    b = io.BytesIO()
    torch.jit.save(torch.jit.script(Const(v)), b)
    return b.getvalue()


REMOTE, LOCAL = script(1.0), script(2.0)


class Server(threading.Thread):
    """Loopback host: answers every request with the remote content, remembers what it was asked for."""

    def __init__(self):
        super().__init__(daemon=True)
        self.s = socket.create_server(("127.0.0.1", 0))
        self.port = self.s.getsockname()[1]
        self.log = []
        self.start()

    def run(self):
        while True:
            c, _ = self.s.accept()
            with c:
                try:
                    c.settimeout(5)
                    b = c.recv(65536)
                    if b[:1] == b"\x16":
                        self.log.append("<tls>")
                        continue
                    line = b.split(b"\r\n")[0].decode("latin1").split(" ")
                    if len(line) > 1:
                        self.log.append(line[1])
                        c.sendall(f"HTTP/1.1 200 OK\r\nContent-Length: {len(REMOTE)}\r\nConnection: close\r\n\r\n".encode() + REMOTE)
                    else:
                        self.log.append("<connection>")
                except OSError:
                    self.log.append("<connection>")


SRV = []


def place():
    if not SRV:
        SRV.append(Server())
    SRV[0].log.clear()
    d = tempfile.mkdtemp(dir=BASE)
    os.environ["HOME"] = d
    os.makedirs(d + "/cwd")
    os.chdir(d + "/cwd")
    return d


def leave(d):
    os.chdir(BASE)
    shutil.rmtree(d, ignore_errors=True)


def real(s):
    return s.replace("HOST", f"127.0.0.1:{SRV[0].port}")


def put(s):
    """Make the (relative) string the path of an existing file, if possible."""
    if os.path.isabs(s) or ".." in s.split("/") or s.endswith("/") or os.path.basename(s) in (".", ""):
        return False
    try:
        os.makedirs(os.path.dirname(s) or ".", exist_ok=True)
        with open(s, "wb") as f:
            f.write(LOCAL)
    except OSError:
        return False
    return True


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn()


def torch_case(s, here, force=False):
    """-> here, contact, got, asked"""
    from pycomlink.processing.pytorch_utils.inference_utils import get_model
    d = place()
    try:
        r = real(s)
        here = bool(here and put(r))
        try:
            m = quiet(lambda: get_model(r, force_download=True) if force else get_model(r))
            v = float(m(torch.zeros(1)))
            got = {1.0: "remote", 2.0: "file"}.get(v, "other")
        except Exception:
            got = "error"
        log = list(SRV[0].log)
        want = urlsplit(r)
        return here, bool(log), got, log == [(want.path or "/") + ("?" + want.query if want.query else "")]
    finally:
        leave(d)


def asked_for(u):
    u = urlsplit(u)
    return u.path + ("?" + u.query if u.query else "")


def tf_case(s1, s2):
    from pycomlink.processing.tensorflow_utils.inference_utils import resolve_model_paths
    d = place()
    try:
        r = [real(s1), real(s2)]
        got, err = [], False
        try:
            p = quiet(lambda: resolve_model_paths(r[0], r[1]))
            for a, b in zip(p, r):
                if os.path.abspath(a) == os.path.abspath(b):
                    got.append("path")
                elif os.path.isfile(a) and open(a, "rb").read() == REMOTE:
                    got.append("remote")
                else:
                    got.append("other")
        except Exception:
            err = True
        log = list(SRV[0].log)
        tls = log.count("<tls>")
        con = []
        for x in r:
            if x.startswith("https://") or x.startswith("http://") and asked_for(x) in log:
                con.append(x.startswith("http://") or tls > 0)
            else:
                con.append(False)
        if r[0].startswith("https://") and r[1].startswith("https://") and tls:
            con = [True, tls > 1]
        known = {asked_for(x) for x in r if x.startswith("http://")} | {"<tls>"}
        return con, got, err, all(x in known for x in log) and len(log) == sum(con)
    finally:
        leave(d)


# ---------------------------------------------------------------- TensorFlow, import system and commands replaced by stand-ins
class World(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, inst, env, gpu, pip):
        self.inst, self.gen, self.gpu, self.pip = inst, int(inst), gpu, pip
        self.pips, self.other = [], []
        self.setenv(env)

    def setenv(self, v):
        os.environ.pop("ALLOW_TF_AUTOINSTALL", None)
        if v != "unset":
            os.environ["ALLOW_TF_AUTOINSTALL"] = v

    # import of tensorflow
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] != "tensorflow":
            return None
        if not self.inst or name != "tensorflow":
            return None
        return importlib.machinery.ModuleSpec(name, self)

    def create_module(self, spec):
        m = types.ModuleType("tensorflow")
        m.gen = self.gen
        m.__version__ = "0"
        m.config = types.SimpleNamespace(list_physical_devices=lambda *a: ["g"] if self.gpu else [])
        m.keras = types.SimpleNamespace(models=types.SimpleNamespace(model_from_json=("json", self.gen)),
                                        optimizers=types.SimpleNamespace(SGD=("sgd", self.gen)))
        return m

    def exec_module(self, m):
        pass

    def remove(self):
        self.inst = False
        for k in [k for k in sys.modules if k.split(".")[0] == "tensorflow"]:
            del sys.modules[k]

    def add(self):
        if not self.inst:
            self.inst = True
            self.gen += 1

    # commands
    def command(self, args):
        a = args if isinstance(args, (list, tuple)) else str(args).split()
        a = [str(x) for x in a]
        if a and os.path.basename(a[0]) == "nvidia-smi":
            if not self.gpu:
                raise FileNotFoundError(2, "No such file or directory", "nvidia-smi")
            return 0
        if "install" in a:
            pk = [x for x in a[a.index("install") + 1:] if not x.startswith("-")]
            self.pips += pk
            if self.pip == "fail":
                return 1
            if self.pip == "ok" and any(x.split("[")[0] == "tensorflow" for x in pk):
                self.add()
            return 0
        self.other.append(a)
        return 0


class Skip:
    """Another finder, for everything but tensorflow."""

    def __init__(self, f):
        self.f = f

    def find_spec(self, name, path=None, target=None):
        return None if name.split(".")[0] == "tensorflow" else self.f.find_spec(name, path, target)


def fake_popen(w):
    class P:
        def __init__(self, args, *a, **k):
            self.args, self.pid = args, 1
            self.stdin = self.stdout = self.stderr = None
            self.returncode = w.command(args)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def wait(self, *a, **k):
            return self.returncode

        poll = wait

        def communicate(self, *a, **k):
            return b"", b""

        def kill(self):
            pass

    return P


def lazy_case(inst, env, gpu, pip, steps):
    """-> per step (out, exc, pips)"""
    if len(steps) % 2 == 0:  # says nothing about the presence of a GPU
        os.environ["CUDA_VISIBLE_DEVICES"] = ["0", "", "-1"][len(steps) // 2 % 3]
    keep = {k: v for k, v in sys.modules.items() if k.split(".")[0] == "tensorflow" or k.startswith("pycomlink.processing.tensorflow_utils")}
    for k in keep:
        del sys.modules[k]
    w = World(inst, env, gpu, pip)
    sv = subprocess.Popen, os.system, shutil.which
    meta = list(sys.meta_path)
    sys.meta_path[:] = [w] + [Skip(f) for f in meta]
    subprocess.Popen = fake_popen(w)
    os.system = lambda c: w.command(c)
    shutil.which = lambda c, *a, **k: sv[2](c, *a, **k) if c != "nvidia-smi" else "/usr/bin/nvidia-smi" if gpu else None
    ds = xr.Dataset({"tl1": ("time", np.zeros(3))})
    out = []
    try:
        lz = importlib.import_module("pycomlink.processing.tensorflow_utils.lazy_tf")
        iu = importlib.import_module("pycomlink.processing.tensorflow_utils.inference_utils")
        ri = importlib.import_module("pycomlink.processing.tensorflow_utils.run_inference")
        for n, x in enumerate(steps):
            w.pips = []
            o, exc = 0, ""
            op = x["op"]
            if op == "env":
                w.setenv(x["v"])
            elif op == "remove":
                w.remove()
            elif op == "add":
                w.add()
            else:
                try:
                    if op == "cnn":
                        try:
                            quiet(lambda: ri.wet_dry_1d_cnn(ds, id_coord="cml_id", **({"install_tensorflow": x["arg"]} if x["arg"] or n % 2 else {})))
                            exc = "no error"
                        except KeyError:  # there is no such coordinate; TensorFlow is looked for before that
                            o = getattr(lz.get_tf(), "gen", -1)
                    elif op == "keras":
                        o = (quiet(iu.get_model_from_json) if n % 2 else quiet(iu.get_optimizer_class))[1]
                    else:
                        fn = lz.get_tf if op == "get" else lz.ensure_tensorflow_installed
                        o = quiet(lambda: fn(auto_install=True) if x["arg"] else fn() if n % 2 else fn(False)).gen
                except ImportError:
                    exc = "ImportError"
                except Exception as e:
                    exc = "pip" if w.pips and pip == "fail" else exc_name(e)
            out.append((o, exc, list(w.pips)))
    finally:
        sys.meta_path[:] = meta
        subprocess.Popen, os.system, shutil.which = sv
        os.environ.pop("ALLOW_TF_AUTOINSTALL", None)
        os.environ.pop("CUDA_VISIBLE_DEVICES", None)
        for k in [k for k in sys.modules if k.split(".")[0] == "tensorflow" or k.startswith("pycomlink.processing.tensorflow_utils")]:
            del sys.modules[k]
        sys.modules.update(keep)
    return out


def replay(c, job, ctx):
    m = []
    if c["k"] == "torch":
        here, contact, got, asked = torch_case(c["s"], c["here"], len(c["s"]) % 2 == 0)
        want = dict(c["o"])
        if want["got"] == "file" and not here:
            want["got"] = "error"
        if contact != want["contact"]:
            m.append(f"source {c['s']!r}: contact with the host {contact}")
        if got != want["got"]:
            m.append(f"source {c['s']!r}: {got} instead of {want['got']}")
        if got == "remote" and not asked:
            m.append(f"source {c['s']!r}: another URL was requested")
    elif c["k"] == "tf":
        con, got, err, asked = tf_case(c["s1"], c["s2"])
        o = c["o"]
        if err != o["err"] or not err and got != o["got"]:
            m.append(f"sources {c['s1']!r}, {c['s2']!r}: {'error' if err else got} instead of {o}")
        elif err and not (all(not k or w for k, w in zip(con, o["contact"])) and any(k and g == "error" for k, g in zip(con, o["got"]))) or not err and con != o["contact"]:
            m.append(f"sources {c['s1']!r}, {c['s2']!r}: contact with the host {con}")
        elif not asked:
            m.append(f"sources {c['s1']!r}, {c['s2']!r}: other URLs were requested")
    else:
        out = lazy_case(c["inst"], c["env"], c["gpu"], c["pip"], [x["x"] for x in c["steps"]])
        for i, (x, (o, exc, pips)) in enumerate(zip(c["steps"], out)):
            if pips != x["pips"]:
                m.append(f"step {i + 1} {x['x']}: installed {pips}, expected {x['pips']}")
            if exc != x["exc"]:
                m.append(f"step {i + 1} {x['x']}: error {exc!r}, expected {x['exc']!r}")
            elif not exc and o != x["out"]:
                m.append(f"step {i + 1} {x['x']}: module {o}, expected {x['out']}")
    return m


def record(rng, job, tier, progress):
    pick = lambda *a: a[rng.randint(len(a))]
    for it in range(job["n"]):
        if it % 3 == 0:
            parts = ["http://HOST/", "https://HOST/", "http", "https", ":", "/", "//", "m", "model", ".pt", ".pth", ".pt2", ".", "d", "HTTP://HOST/", "a b", "?x=1", "ü"]
            s = "".join(pick(*parts) for _ in range(rng.randint(1, 6)))
            if rng.rand() < .3:
                s = pick("http://HOST/", "https://HOST/") + s.replace("HOST", "h").replace(" ", "").replace("ü", "").replace("//", "/")
            if s.startswith("/") or "ü" in s and s.startswith("http") or " " in s and s.startswith("http"):
                s = "d" + s.replace("ü", "").replace(" ", "")
            if s.startswith(("http://", "https://")) and not s.startswith(("http://HOST/", "https://HOST/")):
                s = "x" + s
            if rng.rand() < .25:
                s = pick("http://HOST/m/", "http://HOST/m.pt/", "http://HOST/m?a=/", "http://HOST/m//", "http://HOST/M.PT", "./m", ".//m", "m/", "d/../m", "./m.PT", "m.PT", "m.Pt", " http://HOST/m", "\thttps://HOST/m.pt", " m.pt", "m.pt ", "m ", "m.pt/", "./http", "file://m", "ftp://HOST/m.pt", "Http://HOST/m", "www.HOST/m", "HOST/m", "~/m", "m.ptx", "m.jit", "m.h5")
            force = bool(rng.rand() < .3)
            progress({"s": s})
            here, contact, got, asked = torch_case(s, rng.rand() < .7, force)
            yield {"k": "torch", "s": s, "here": here, "contact": contact, "got": got, "asked": bool(asked), "exc": ""}
        elif it % 3 == 1:
            src = [pick("http://HOST/a/", "https://HOST/", "", "d/", "./", "http:/", "xhttps://HOST/", " http://HOST/", "HTTP://HOST/", "../", "~/", "D e/") + f"{v}{pick('.json', '.h5', '', '.pt', '.H5', '.weights.h5', '.JSON', '?a=1')}" for v in ("j", "w")]
            progress({"s": src})
            con, got, err, asked = tf_case(*src)
            yield {"k": "tf", "s1": src[0], "s2": src[1], "contact": con, "got": got or ["error", "error"], "err": err, "asked": bool(asked), "exc": ""}
        else:
            e = {"k": "lazy", "inst": bool(rng.rand() < .3), "env": pick("unset", "", "0", "1", "1", "2", "no", "1 ", " 1", "true", "True", "01", "yes"), "gpu": bool(rng.rand() < .5), "pip": pick("ok", "noop", "fail")}
            steps = []
            for _ in range(rng.randint(1, 15)):
                op = pick("get", "ensure", "cnn", "keras", "env", "remove", "add", "get")
                x = {"op": op}
                if op in ("get", "ensure", "cnn"):
                    x["arg"] = bool(rng.rand() < .3)
                if op == "env":
                    x["v"] = pick("unset", "", "0", "1", "10", "1\n", "TRUE", "on")
                steps.append(x)
            progress(dict(e, steps=steps))
            out = lazy_case(e["inst"], e["env"], e["gpu"], e["pip"], steps)
            yield dict(e, steps=[dict(x, out=o, exc=exc, pips=p) for x, (o, exc, p) in zip(steps, out)], exc="")
