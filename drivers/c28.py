import os
import pickle
import struct
import subprocess
import sys

import numpy as np


def call(kern, args):
    """One execution of a kernel through its public function -> list of floats, or exception name."""
    from pycomlink.processing.baseline import baseline_constant, baseline_linear
    from pycomlink.processing.blackout_gap_detection import created_blackout_gap_mask_from_start_end_markers as mask
    from pycomlink.processing.wet_antenna import waa_schleiss_2013
    from pycomlink.spatial.idw import Invdisttree
    fun = {"const": baseline_constant, "lin": baseline_linear, "waa": waa_schleiss_2013, "mask": mask,
           "idw": lambda X, q, z, nnear, p, md: Invdisttree(X)(q, z, nnear=nnear, p=p, max_distance=md)}[kern]
    try:
        return [float(v) for v in np.asarray(fun(*args)).ravel()], ""
    except Exception as e:
        return [], type(e).__name__


def serve():
    np.seterr(all="ignore")
    i, o = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    while True:
        h = i.read(4)
        if len(h) < 4:
            return
        kern, args = pickle.loads(i.read(struct.unpack("<I", h)[0]))
        b = pickle.dumps(call(kern, args))
        o.write(struct.pack("<I", len(b)) + b)
        o.flush()


if __name__ == "__main__":
    import warnings
    warnings.filterwarnings("ignore")
    serve()
    sys.exit()

from venc import *

HELP = []


def interpreted(kern, args):
    """The same execution in a process without just-in-time compilation."""
    if not HELP:
        env = dict(os.environ, NUMBA_DISABLE_JIT="1")
        HELP.append(subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env))
    p = HELP[0]
    b = pickle.dumps((kern, args))
    p.stdin.write(struct.pack("<I", len(b)) + b)
    p.stdin.flush()
    return pickle.loads(p.stdout.read(struct.unpack("<I", p.stdout.read(4))[0]))


def typed(x, t):
    return x if t == "f8" else x.astype({"f4": np.float32, "i8": np.int64, "i4": np.int32, "i1": np.int8, "b": bool}[t])


def runs_of(kern, args, wt, xt):
    """Executions: both modes with float arguments, then with other types of flags and signal (lists of type names)."""
    res = []
    for a, b in [("f8", "f8")] + [(t, "f8") for t in wt] + [("f8", t) for t in xt]:
        if kern in ("const", "lin", "waa"):
            q = list(args)
            q[0] = typed(q[0], b)
            k = 2 if kern == "waa" else 1
            q[k] = typed(q[k], a)
        elif kern == "mask":
            q = [typed(args[0], b)] + [typed(v, a if a != "f8" else "b") for v in args[1:]]
        else:
            q = list(args)
            q[2] = typed(q[2], b)
        for mode, f in (("compiled", call), ("interpreted", interpreted)):
            out, exc = f(kern, q)
            res.append({"name": f"{mode} flags {a} signal {b}", "out": out, "exc": exc})
    return res


def replay(c, job, ctx):
    x, w = decs(c["x"]), decs(c["w"])
    k = len(x) + sum((v % 5) * (i + 1) for i, v in enumerate(c["x"] + c["w"]))
    wt = [] if np.isnan(w).any() else ["b", "i8", "i1", "f4"]
    xt = ["f4"] if np.isnan(x).any() else ["i8", "i4", "f4"]
    wt, xt = wt[k % 4:][:1], xt[k % 3:][:1]
    gs, ge = np.array(c["mask"]["gs"], dtype=bool), np.array(c["mask"]["ge"], dtype=bool)
    m = []
    for kern, args in (("const", [x, w, c["n"]]), ("lin", [x, w, bool(k % 2)]), ("waa", [x, np.zeros(len(x)), w, float(c["wmax"]), 1.0, 6.0]),
                       ("mask", [x, gs, ge])):
        r = runs_of(kern, args, wt if kern != "mask" else ["i8"][:k % 2], xt if kern != "mask" else [])
        for y in r[1:]:
            if y["exc"] != r[0]["exc"] or not same(y["out"], r[0]["out"], rtol=1e-9, atol=1e-9):
                m.append(f"{kern}: {y['name']} {y['exc'] or y['out']} but {r[0]['name']} {r[0]['exc'] or r[0]['out']}")
    return m


def record(rng, job, tier, progress):
    for i in range(job["n"]):
        kern = ["const", "lin", "waa", "mask", "idw"][i % 5]
        n = int(rng.choice([1, 2, 5, 20, 100, 400]))
        u = rng.rand()
        x = np.round(rng.randn(n) * 20 - 50, 2) if u < .5 else rng.randint(-90, 90, n).astype(float)
        if u > .9:
            x = x * 10.0 ** rng.randint(-6, 7)
        intx = u >= .5
        if rng.rand() < .5:
            x[rng.rand(n) < .15] = np.nan
            intx = False
            if rng.rand() < .3:
                x[rng.rand(n) < .05] = np.inf
        w = np.array(runs(rng, n, [0, 1] if rng.rand() < .5 else [0, 1, nan], 3), dtype=float)
        wt = [] if np.isnan(w).any() else ["b", "i8", "i4", "f4"]
        xt = ["i8", "i4"] if intx and u <= .9 else []
        if kern == "const":
            args = [x, w, int(rng.choice([1, 2, 5, 17]))]
        elif kern == "lin":
            args = [x, w, bool(rng.rand() < .5)]
        elif kern == "waa":
            args = [x, np.round(rng.randn(n), 1) - 55, w, float(rng.choice([2.3, 1.0, 0.0, 5])), float(rng.choice([1, 0.5, 15])), float(rng.choice([15, 1, 4]))]
        elif kern == "mask":
            s = np.isnan(x)
            args = [x, np.r_[s[1:], False] & ~s & (rng.rand(n) < .7), np.r_[False, s[:-1]] & ~s & (rng.rand(n) < .7)]
            if rng.rand() < .3:
                args[1:] = [rng.rand(n) < .3, rng.rand(n) < .3]
            wt = ["i8"]
            xt = ["f4"]
        else:
            n = max(2, min(n, 30))
            X = rng.randint(-5, 6, (n, 2)).astype(float) + (rng.rand(n, 2) if rng.rand() < .5 else 0)
            X = np.unique(X, axis=0)
            q = np.vstack([X[rng.randint(len(X))], rng.randint(-6, 7, (int(rng.randint(1, 6)), 2)) + 0.25])
            z = rng.randint(-9, 10, len(X)).astype(float)
            xt = ["i8", "i4", "f4"]
            if rng.rand() < .4:
                z[rng.rand(len(X)) < .2] = np.nan
                xt = []
            args = [X, q, z, int(rng.randint(2, 9)), [1, 2, 0, 3, 0.5, 1.0][rng.randint(6)], None if rng.rand() < .5 else float(rng.choice([1.3, 4.7]))]
            wt = []
        progress({"kern": kern, "args": [a.tolist() if isinstance(a, np.ndarray) else a for a in args]})
        r = runs_of(kern, args, wt[rng.randint(4):][:1] if kern != "mask" else wt, xt[rng.randint(3):][:1] if kern != "mask" else xt)
        sc = autoscale(*[y["out"] for y in r])
        yield {"kern": kern, "runs": [{"name": y["name"], "out": rnds(y["out"], sc), "exc": y["exc"]} for y in r],
               "args": [encs(a, 1e3, None) if isinstance(a, np.ndarray) else str(a) for a in args], "exc": ""}
