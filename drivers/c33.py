import contextlib
import gc
import importlib
import importlib.abc
import importlib.machinery
import io
import locale
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings
import matplotlib
import matplotlib.pyplot
import numpy as np
import pandas as pd
import torch
import xarray as xr
import pycomlink
from venc import *
from c27 import forked, plain, close
import c30

torch.set_num_threads(1)
ROOT = os.path.dirname(os.path.realpath(pycomlink.__file__))


def modules():
    g = {"plain": [], "torch": [], "tf": []}
    for d, _, fs in os.walk(ROOT):
        rel = os.path.relpath(d, os.path.dirname(ROOT)).split(os.sep)
        if "tests" in rel or "__init__.py" not in fs:
            continue
        for f in fs:
            if f.endswith(".py"):
                nm = ".".join(rel if f == "__init__.py" else rel + [f[:-3]])
                g["torch" if "pytorch_utils" in nm.split(".") else "tf" if "tensorflow_utils" in nm.split(".") else "plain"].append(nm)
    return {k: sorted(v) for k, v in g.items()}


MODULES = modules()
for nm in MODULES["plain"] + MODULES["tf"] + MODULES["torch"]:  # third party modules are loaded before any history
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        importlib.import_module(nm)

RNG = np.random.RandomState(5)
T = 60
TRSL = xr.DataArray(60 + np.round(RNG.rand(2, T) * 9, 1), dims=("channel_id", "time"), name="trsl",
                    coords={"channel_id": ["c1", "c2"], "time": np.datetime64("2021-05-01", "ns") + np.arange(T) * np.timedelta64(60, "s")})
WET = TRSL > 65
TR2 = np.round(-50 - RNG.rand(200) * 9, 1)
TRDA = xr.DataArray(TR2, dims="time", coords={"time": np.datetime64("2021-05-01", "ns") + np.arange(200) * np.timedelta64(60, "s")})
sub = importlib.import_module
# the documented way is attribute access after "import pycomlink"; modules that the package does not import itself are imported by name
CALLS = [
    lambda p: p.processing.baseline.baseline_constant(TRSL, WET, n_average_last_dry=3),
    lambda p: p.processing.baseline.baseline_linear(TRSL.values[0], WET.values[0]),
    lambda p: p.processing.k_R_relation.calc_R_from_A(TRSL - 60, 5.2, 23, "H"),
    lambda p: p.processing.wet_antenna.waa_leijnse_2008_from_A_obs(np.arange(5.), 23e9, "V", 4.),
    lambda p: p.processing.wet_antenna.waa_schleiss_2013(TRSL, 60 + 0 * TRSL, WET, 2.3, 1, 15),
    lambda p: p.processing.wet_antenna.waa_pastorek_2021_from_A_obs(np.arange(5.), 23e9, "V", 4.),
    lambda p: p.spatial.interpolator.clim_var_param("20210703", 1),
    lambda p: p.spatial.interpolator.IdwKdtreeInterpolator(nnear=3)(np.array([1., 2, 5]), np.array([2., 0, 1]), np.array([1., 4, 2]), resolution=.5),
    lambda p: p.spatial.idw.Invdisttree(np.array([[1., 2], [3, 4], [0, 0]]))(q=np.array([[1., 1], [2, 2]]), z=np.array([1., 2, 3]), nnear=2),
    lambda p: p.validation.stats.calc_wet_dry_performance_metrics(np.array([1., 0, 1, 1, 0]), np.array([1., 1, 0, 1, 0])),
    lambda p: p.util.temporal.aggregate_df_onto_DatetimeIndex(
        pd.DataFrame({"a": np.arange(30.)}, index=pd.date_range("2021-05-01", periods=30, freq="min", tz="utc")), pd.date_range("2021-05-01", periods=4, freq="10min", tz="utc"), method=np.nanmean),
    lambda p: p.spatial.helper.haversine(10., 47., 11., 48.),
    lambda p: p.io.examples.get_one_cml(),
    lambda p: sub("pycomlink.processing.wet_dry.mlp").mlp_wet_dry(TRDA, TRDA + 1),
    lambda p: sub("pycomlink.processing.wet_dry.stft").find_lowest_std_dev_period(TR2, 40),
    lambda p: sub("pycomlink.processing.min_max")._calc_A_min_max(TR2, TR2 - 1, TR2, TR2 - 3),
    lambda p: sub("pycomlink.processing.blackout_gap_detection").get_blackout_start_and_end(TR2, -55.),
    lambda p: p.processing.k_R_relation.a_b(23, "V"),
]


def value(i, p):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return plain(CALLS[i](p))


REF = {}


def ref(i):
    """Result with everything installed and loaded."""
    if i not in REF:
        REF[i] = value(i, pycomlink)
    return REF[i]


class Torch(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """PyTorch that may be absent; if present, its import gives the loaded modules back."""

    def __init__(self, present, mods):
        self.present, self.mods = present, mods

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] not in ("torch", "torchgen", "functorch") or not self.present or name not in self.mods:
            return None
        return importlib.machinery.ModuleSpec(name, self, is_package=hasattr(self.mods[name], "__path__"))

    def create_module(self, spec):
        for k, v in self.mods.items():  # as a real import, which loads the submodules too
            sys.modules[k] = v
        return self.mods[spec.name]

    def exec_module(self, m):
        pass


class Skip:
    def __init__(self, f):
        self.f = f

    def find_spec(self, name, path=None, target=None):
        return None if name.split(".")[0] in ("tensorflow", "torch", "torchgen", "functorch") else self.f.find_spec(name, path, target)

    def __getattr__(self, n):
        return getattr(self.f, n)


WATCH = ("subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork", "os.forkpty", "socket.connect", "socket.bind", "socket.getaddrinfo", "urllib.Request",
         "os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.truncate", "os.link", "os.symlink", "os.chmod", "os.chown", "os.utime", "os.putenv", "os.unsetenv", "os.chdir",
         "shutil.copyfile", "shutil.move", "shutil.rmtree", "tempfile.mkstemp", "tempfile.mkdtemp")


def state():
    return [np.geterr(), dict(os.environ), os.getcwd(), dict(matplotlib.rcParams), np.random.get_state()[1].tolist(), random.getstate(), locale.setlocale(locale.LC_ALL),
            [str(f) for f in warnings.filters], list(sys.path), threading.active_count(), gc.isenabled(), sys.getrecursionlimit(), str(xr.get_options()),
            [pd.get_option(k) for k in ("mode.chained_assignment", "display.max_rows", "display.precision")], torch.get_num_threads(), torch.initial_seed(), np.get_printoptions()]


def grab(name, how):
    """Import the module in one of the ways of the language; all give the same module."""
    if how == 0:
        m = importlib.import_module(name)
    elif how == 1:
        m = __import__(name, fromlist=["x"])
    elif how == 2 or "." not in name:
        ns = {}
        exec(f"import {name}", ns)
        m = eval(name, ns)
    else:
        ns = {}
        a, b = name.rsplit(".", 1)
        exec(f"from {a} import {b} as m", ns)
        m = ns["m"]
    return m if m is sys.modules[name] else None


def child(e):
    sys.dont_write_bytecode = True
    np.seterr(all="warn")
    np.seterr(under="ignore")
    home = tempfile.mkdtemp(dir=os.environ["TMPDIR"])
    os.environ["HOME"] = home
    os.chdir(home)
    os.environ.pop("ALLOW_TF_AUTOINSTALL", None)
    try:
        return run(e)
    finally:
        os.chdir("/")
        shutil.rmtree(home, ignore_errors=True)


def run(e):
    top = ("torch", "torchgen", "functorch")
    th = Torch(e["torch"], {k: v for k, v in sys.modules.items() if k.split(".")[0] in top})
    w = c30.World(e["tf"], "1" if e["env"] else "unset", False, "noop")
    for k in list(sys.modules):
        if k.split(".")[0] in top + ("pycomlink", "tensorflow"):
            del sys.modules[k]
    sys.meta_path[:] = [w, th] + [Skip(f) for f in sys.meta_path]
    subprocess.Popen = c30.fake_popen(w)
    os.system = lambda c: w.command(c)
    seen, on = [], [False]

    def audit(ev, args):
        if on[0]:
            if ev == "open":
                if isinstance(args[0], (str, bytes)) and (any(c in (args[1] or "") for c in "wax+") or (args[2] or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
                    seen.append((ev, str(args[0])))
            elif ev in WATCH:
                seen.append((ev, str(args)[:200]))

    sys.addaudithook(audit)
    out, alive = [], []
    for x, n in e["steps"]:
        op, o = x["op"], {"exc": "", "told": False, "half": False, "touched": [], "same": True, "detail": ""}
        text = io.StringIO()
        before, w.pips, w.other = state(), [], []
        del seen[:]
        on[0] = op in ("import", "call")
        try:
            with contextlib.redirect_stdout(text), contextlib.redirect_stderr(text):
                if op == "import":
                    name = MODULES[x["g"]][n % len(MODULES[x["g"]])]
                    o["detail"] = name
                    m = grab(name, n // 7 % 4)
                    o["same"] = m is not None and len(vars(m)) > 0
                elif op == "call":
                    i = n % len(CALLS)
                    o["detail"] = f"call {i}"
                    import pycomlink as p
                    v = plain(CALLS[i](p))
                    o["same"] = close(v, REF[i])
                elif op == "use":
                    lz = importlib.import_module("pycomlink.processing.tensorflow_utils.lazy_tf")
                    iu = importlib.import_module("pycomlink.processing.tensorflow_utils.inference_utils")
                    alive.append((lz.get_tf, iu.get_model_from_json, iu.get_optimizer_class)[n % 3]())
                elif x["g"] == "torch":
                    th.present = True
                else:
                    w.add()
        except Exception as ex:
            s = str(ex).lower()
            o["exc"] = "torch" if "torch" in s else "tensorflow" if "tensorflow" in s and isinstance(ex, ImportError) else "other"
            o["detail"] += f" {type(ex).__name__}: {ex}"[:300]
        finally:
            on[0] = False
        if op in ("import", "call"):
            after = state()
            o["touched"] = [str(v) for v in seen] + [f"command {v}" for v in w.pips + w.other] + [f"global state {i}" for i, (a, b) in enumerate(zip(before, after)) if repr(a) != repr(b)]
        o["told"] = "tensorflow" in text.getvalue().lower()
        if o["exc"] == "torch":
            o["half"] = any(k.startswith("pycomlink.processing.pytorch_utils") for k in sys.modules) or hasattr(sys.modules.get("pycomlink.processing"), "pytorch_utils")
        o["tl"], o["fl"] = "torch" in sys.modules, "tensorflow" in sys.modules
        pk = sys.modules.get("pycomlink.processing.tensorflow_utils")
        o["named"] = all(hasattr(pk, k) for k in ("get_tf", "inference_utils", "run_inference"))
        out.append(o)
    return out


def history(e):
    for x, n in e["steps"]:
        if x["op"] == "call":
            ref(n % len(CALLS))
    gc.freeze()
    return forked(lambda: child(e))


def replay(c, job, ctx):
    if len(c["steps"]) == 1 and c["steps"][0]["x"]["op"] == "import" and not c["env"]:  # every module as the first one
        x, m = c["steps"][0], []
        for i in range(len(MODULES[x["x"]["g"]])):
            n = x["n"] - x["n"] % len(MODULES[x["x"]["g"]]) + i
            m += replay1(dict(c, steps=[dict(x, n=n)]))
        return m
    return replay1(c)


def replay1(c):
    out = history({"torch": c["torch"], "tf": c["tf"], "env": c["env"], "steps": [(x["x"], x["n"]) for x in c["steps"]]})
    m = []
    for i, (x, o) in enumerate(zip(c["steps"], out)):
        at = f"step {i + 1} {x['x']} {o['detail']}: "
        if o["exc"] != x["exc"]:
            m.append(at + f"error {o['exc']!r} instead of {x['exc']!r}")
        for k, nm in (("tl", "PyTorch"), ("fl", "TensorFlow")):
            if o[k] != x[k]:
                m.append(at + nm + (" loaded without need" if o[k] else " not loaded"))
        if x["told"] and not o["told"]:
            m.append(at + "not told that TensorFlow is missing")
        if x["named"] and not o["named"]:
            m.append(at + "functions not offered by tensorflow_utils")
        if o["half"]:
            m.append(at + "half imported module left")
        if o["touched"]:
            m.append(at + "side effects " + ", ".join(o["touched"])[:400])
        if not o["same"]:
            m.append(at + "another result")
    return m


def record(rng, job, tier, progress):
    pick = lambda *a: a[rng.randint(len(a))]
    for it in range(job["n"]):
        e = {"torch": bool(rng.rand() < .4), "tf": bool(rng.rand() < .4), "env": bool(rng.rand() < .3)}
        steps, have = [], [e["torch"], e["tf"]]
        for _ in range(rng.randint(2, 25)):
            op = pick("import", "import", "import", "call", "call", "use", "add")
            x = {"op": op}
            if op == "import":
                x["g"] = pick("plain", "plain", "torch", "tf")
            if op == "add":
                x["g"] = pick("torch", "tf")
            steps.append((x, int(rng.randint(10000))))
        progress(dict(e, steps=steps))
        out = history(dict(e, steps=steps))
        yield dict(e, steps=[dict(x, **{k: o[k] for k in ("exc", "told", "tl", "fl", "named", "half", "same")}, touched=bool(o["touched"]), detail=o["detail"] + " " + "; ".join(o["touched"])[:200])
                             for (x, n), o in zip(steps, out)], exc="")
