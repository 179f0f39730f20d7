import os
import pickle
import warnings
import numpy as np
import xarray as xr
from venc import *

warnings.filterwarnings("ignore")
from pycomlink.processing.wet_dry.mlp import mlp_wet_dry

MD = os.path.join(os.environ["VERIF_REPO"], "pycomlink", "processing", "wet_dry", "mlp_model_files")
MODELS = {}
for s in ("rad", "rg", "rad_online", "rg_online"):
    with open(os.path.join(MD, f"model_{s}.pkl"), "rb") as f:
        MODELS[s] = pickle.load(f)
U = 0.1  # dB per unit


def da(x, k=0):
    t = np.datetime64("2021-05-01", "ns") + np.arange(len(x)) * np.timedelta64(60, "s")
    r = xr.DataArray(decs(x) * U if not isinstance(x, np.ndarray) else x, dims="time", coords={"time": t}, name="trsl")
    return r.assign_coords(channel_id=f"channel_{k}", cml_id="a")


def probs(sel, d1, d2, starts):
    """The model's probabilities for the windows of 40 steps starting at the given steps (1-based)."""
    if not len(starts):
        return np.zeros((0, 2))
    x = np.array([np.r_[d1[a - 1:a + 39], d2[a - 1:a + 39]] for a in starts])
    return MODELS[sel].predict_proba(x)


def replay(c, job, ctx):
    n = len(c["x1"])
    try:
        a, b = da(c["x1"], 1), da(c["x2"], 2)
        ka, kb = a.copy(deep=True), b.copy(deep=True)
        out = mlp_wet_dry(a, b) if c["sel"] == "rad_online" and n % 2 else mlp_wet_dry(a, b, model_sel=c["sel"])
    except Exception as e:
        return [f"raised {exc_name(e)}: {str(e)[:200]}"]
    m = [] if a.identical(ka) and b.identical(kb) else ["input changed"]
    out = np.asarray(out, dtype=float)
    if out.shape != (n, 2):
        return m + [f"shape {out.shape}"]
    rows = np.array(c["rows"])
    d1, d2 = decs(c["d1"]) * U / 2, decs(c["d2"]) * U / 2
    want = np.full((n, 2), np.nan)
    want[rows > 0] = probs(c["sel"], d1, d2, rows[rows > 0])
    if not same(out, want, rtol=1e-6, atol=1e-7):
        i = int(np.argmax(~np.isclose(out, want, atol=1e-7, equal_nan=True).all(axis=1)))
        m.append(f"row {i + 1}: {out[i].tolist()} instead of {want[i].tolist()}")
    return m


def detrend(sel, x):
    """In half units; checked against the definition by the specification."""
    n = len(x)
    d = np.full(n, np.nan)
    if sel.endswith("online"):
        d[1:] = x[1:] - x[:-1]
    else:
        for t in range(n):
            w = x[max(0, t - 360):t + 360]
            w = w[~np.isnan(w)]
            if len(w) >= 120:
                d[t] = x[t] - np.median(w)
    return d


def record(rng, job, tier, progress):
    for i in range(job["n"]):
        if i % 10 == 9:
            s = ["RAD", "", "rad ", "online", "cnn", None][rng.randint(6)]
            e = {"sel": str(s), "x1": [], "x2": [], "out": [], "exc": ""}
            progress(e)
            try:
                mlp_wet_dry(da(np.zeros(50)), da(np.zeros(50)), model_sel=s)
            except Exception as x:
                e["exc"] = exc_name(x)
            yield e
            continue
        sel = ["rad", "rad_online", "rg", "rg_online"][i % 4]
        n = int(rng.choice([41, 44, 80, 150])) if "online" in sel else int(rng.choice([119, 130, 480, 760, 900]))
        x = []
        for c in range(2):
            v = 500 + rng.randint(-8, 9, n) + np.array(runs(rng, n, [0, 0, 0, 20, 70, 150], 25)) + 30 * np.sin(np.arange(n) / 300)
            v = np.round(v)
            if rng.rand() < .5:
                v[rng.rand(n) < .01] = np.nan
            if rng.rand() < .2 and n > 100:
                v[rng.randint(n - 50):][:rng.randint(10, 300)] = np.nan
            x.append(v)
        d = [detrend(sel, v) for v in x]
        p = np.full((n, 2), np.nan)
        st = [a for a in range(1, n - 38) if not np.isnan(np.r_[d[0][a - 1:a + 39], d[1][a - 1:a + 39]]).any()]
        p[np.array(st, dtype=int) - 1] = probs(sel, d[0] * U, d[1] * U, st)
        at = sorted(set([1, 2, n, n // 2, n - 1] + [int(t) + 1 for t in rng.randint(0, n, 12)]))
        e = {"sel": sel, "x1": encs(x[0]), "x2": encs(x[1]), "d1": encs(d[0], 2), "d2": encs(d[1], 2), "at": at,
             "p": [rnds(r, 1e6) for r in p], "out": [], "exc": ""}
        progress({"sel": sel, "x1": e["x1"], "x2": e["x2"]})
        try:
            out = np.asarray(mlp_wet_dry(da(x[0] * U, 1), da(x[1] * U, 2), model_sel=sel), dtype=float)
            e["out"] = [rnds(r, 1e6) for r in out]
        except Exception as ex:
            e["exc"] = exc_name(ex)
        yield e
