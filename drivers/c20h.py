"""Histories of the cache through the functions that users call (models really loaded and run)."""
import contextlib
import importlib.machinery
import io
import json
import os
import shutil
import socket
import sys
import tempfile
import threading
import types
import numpy as np
import torch
import xarray as xr
from venc import *

torch.set_num_threads(1)
BASE = os.environ["TMPDIR"]
for k in list(os.environ):
    if k.lower().endswith("_proxy"):
        del os.environ[k]


class Const(torch.nn.Module):
    def __init__(self, v: float):
        super().__init__()
        self.v = v

    def forward(self, x: torch.Tensor):
        return x.sum(dim=2).sum(dim=1, keepdim=True) * 0 + self.v


def script(v):
    b = io.BytesIO()
    torch.jit.save(torch.jit.script(Const(float(v))), b)
    return b.getvalue()


class Fake:
    """Stands for a Keras model, whose structure and weights are the contents of two URLs."""
    def __init__(self, s):
        Fake.json = s

    def load_weights(self, p):
        with open(p) as f:
            Fake.weights = f.read()

    def compile(self, *a, **k):
        pass

    def predict(self, x, *a, **k):
        return np.zeros((len(x), 1), dtype=np.float32)

    __call__ = predict


tf = types.ModuleType("tensorflow")
tf.__version__ = "0"
tf.__spec__ = importlib.machinery.ModuleSpec("tensorflow", None)
tf.keras = types.ModuleType("tensorflow.keras")
tf.keras.models = types.SimpleNamespace(model_from_json=Fake)
tf.keras.optimizers = types.SimpleNamespace(SGD=lambda **k: None)
tf.config = types.SimpleNamespace(list_physical_devices=lambda *a: [])
sys.modules["tensorflow"], sys.modules["tensorflow.keras"] = tf, tf.keras

from pycomlink.processing.pytorch_utils import inference_utils as pt
from pycomlink.processing.pytorch_utils.run_inference import cnn_wd
from pycomlink.processing.tensorflow_utils import inference_utils as ti
from pycomlink.processing.tensorflow_utils.run_inference import wet_dry_1d_cnn


class Server(threading.Thread):
    """content[path]: bytes; fail: what to do with the next requests; log: paths asked for"""

    def __init__(self):
        super().__init__(daemon=True)
        self.s = socket.create_server(("127.0.0.1", 0))
        self.content, self.fail, self.log = {}, "", []
        self.start()

    def run(self):
        while True:
            c, _ = self.s.accept()
            with c:
                try:
                    c.settimeout(5)
                    p = c.recv(65536).split(b"\r\n")[0].decode("latin1").split(" ")[1]
                    self.log.append(p)
                    b = self.content[p]
                    if self.fail == "500":
                        c.sendall(b"HTTP/1.1 500 Oops\r\nContent-Length: 4\r\nConnection: close\r\n\r\nOops")
                    else:
                        c.sendall(f"HTTP/1.1 200 OK\r\nContent-Length: {len(b)}\r\nConnection: close\r\n\r\n".encode())
                        c.sendall(b[:len(b) // 2] if self.fail == "cut" else b)
                except (OSError, IndexError):
                    self.log.append("<connection>")


SRV = []


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn()


class History:
    def __init__(self, lib, U):
        if not SRV:
            SRV.append(Server())
        self.lib, self.U, self.srv = lib, U, SRV[0]
        self.v = [1] * U
        self.paths = [f"/m{u}/{'model' if u % 2 else f'n{u}'}{'.pt' if lib == 'pt' else ['.json', '.weights.h5'][u % 2]}" for u in range(U)]
        self.put()
        self.d = tempfile.mkdtemp(dir=BASE)
        os.environ["HOME"] = self.d
        os.makedirs(self.d + "/cwd")
        os.chdir(self.d + "/cwd")
        self.steps, self.res, self.extra = [], [], 0
        self.srv.log.clear()

    def put(self):
        self.srv.content = {p: script(10 * u + self.v[u]) if self.lib == "pt" else json.dumps([u, self.v[u]]).encode() for u, p in enumerate(self.paths)}

    def url(self, u):
        return f"http://127.0.0.1:{self.srv.s.getsockname()[1]}{self.paths[u]}"

    def close(self):
        os.chdir(BASE)
        shutil.rmtree(self.d, ignore_errors=True)

    def add(self, res, **x):
        self.steps.append({"op": "", "p": 1, "d": 1, "u": 1, "force": False, **x})
        self.res.append(res)

    def bump(self, u):
        self.v[u] += 1
        self.put()
        self.add(["none", 0], op="bump", u=u + 1)

    def call(self, us, force, fn, fail):
        """one call that needs the contents of the URLs us; fn: its result, the versions it worked with"""
        self.srv.fail = fail
        n = len(self.srv.log)
        try:
            got, exc = quiet(fn), False
        except Exception:
            got, exc = None, True
        log = self.srv.log[n:]
        for i, u in enumerate(us):
            asked = log.count(self.paths[u])
            if not asked:
                if exc:  # the call ended before this one was needed (an earlier transfer failed), or failed without reason
                    if i == 0 or not log:
                        self.add(["exc", 0], op="get", u=u + 1, force=force)
                else:
                    self.add(["ret", got[i]], op="get", u=u + 1, force=force)
                continue
            self.extra += asked - 1
            self.add(["dl", self.v[u]], op="get", u=u + 1, force=force)
            if fail:
                self.add(["exc", 0] if exc else ["ret", got[i]], op="fail")
            else:
                self.add(["exc", 0] if exc else ["ret", got[i]], op="part")
        self.extra += len([p for p in log if p not in [self.paths[u] for u in us]])


def pt_value(m):
    return int(m(torch.zeros(1, 1, 1)).reshape(-1)[0])


def file_value(p):
    try:
        return pt_value(torch.jit.load(str(p)))
    except Exception:  # incomplete
        return -1


def ver(x, u):
    """version, if it is the content of URL u"""
    return x - 10 * u if 0 < x - 10 * u < 10 else -1


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        lib = ["pt", "tf"][it % 2]
        U = 2 if lib == "pt" else 4
        h = History(lib, U)
        ex = rng.rand() < .5  # cache directory of the TensorFlow functions given or default
        da = xr.DataArray(np.ones((1, 180, 2)), dims=("cml_id", "time", "channel_id"),
                          coords={"cml_id": ["a"], "time": np.datetime64("2020-01-01", "ns") + np.arange(180) * np.timedelta64(60, "s"), "channel_id": [0, 1]})
        ds = xr.Dataset({"tl1": (("cml_id", "time"), np.arange(3.0)[None]), "tl2": (("cml_id", "time"), np.arange(3.0)[None] * 2)}, coords={"cml_id": ["a"], "time": np.arange(3)})
        try:
            for _ in range(int(rng.randint(4, 9))):
                u = int(rng.randint(U))
                k = rng.rand()
                progress({"lib": lib, "steps": h.steps, "res": h.res})
                if k < .3:
                    if h.v[u] < 9:
                        h.bump(u)
                    continue
                force = bool(rng.rand() < .25)
                kw = {"force_download": force} if force or rng.rand() < .3 else {}
                fail = ["", "", "", "500", "cut"][rng.randint(5)]
                if lib == "pt":
                    if k < .4:
                        got = [file_value(p) // 10 for p in quiet(lambda: pt.list_cached_models())]
                        h.add(["list", sum(2 ** u for u in got) if len(set(got)) == len(got) and min(got, default=0) >= 0 else -1], op="list")
                    elif k < .48:
                        quiet(lambda: pt.clear_model_cache())
                        h.add(["none", 0], op="clear")
                    elif k < .65:
                        h.call([u], force, lambda: [ver(pt_value(pt.get_model(h.url(u), **kw)), u)], fail)
                    elif k < .8:
                        h.call([u], force, lambda: [ver(file_value(pt.download_and_cache_model(h.url(u), **kw)), u)], fail)
                    else:
                        def f():
                            r = cnn_wd(h.url(u), da, **kw).predictions.values
                            return [ver(int(r[np.isfinite(r)][0]), u)]
                        h.call([u], force, f, fail)
                else:
                    u = 2 * (u // 2)
                    c = {"cache_dir": "cc"} if ex else {}
                    w = lambda s, u: (json.loads(s) + [-1])[1] if json.loads(s)[0] == u else -1
                    if k < .6:
                        def f():
                            r = ti.resolve_model_paths(h.url(u), h.url(u + 1), **c, **kw)
                            return [w(open(p).read(), u + i) for i, p in enumerate(r)]
                        h.call([u, u + 1], force, f, fail)
                    else:
                        def f():
                            wet_dry_1d_cnn(ds, seq_len=2, json_url=h.url(u), weights_url=h.url(u + 1), **c, **kw)
                            return [w(Fake.json, u), w(Fake.weights, u + 1)]
                        h.call([u, u + 1], force, f, fail)
        finally:
            h.close()
        if h.res:
            yield {"P": 1, "U": U, "D": 1, "N": 1, "steps": h.steps, "res": h.res, "extra": h.extra, "lib": lib + " high"}
