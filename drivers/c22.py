import importlib.machinery
import os
import sys
import types
import numpy as np
import xarray as xr
from venc import *

D = os.environ["TMPDIR"]
JS, WT = os.path.join(D, "model.json"), os.path.join(D, "model.weights.h5")


class Fake:
    """Stands for an arbitrary Keras model: remembers its inputs, returns the number of the sample."""
    rows = []

    def load_weights(self, p):
        assert str(p) == WT, f"weights loaded from {p}"

    def compile(self, *a, **k):
        pass

    def predict(self, x, *a, **k):
        x = np.asarray(x)
        n = len(Fake.rows)
        if not len(x):
            raise ValueError("Unexpected result of predict_function (empty batch)")  # as Keras does
        Fake.rows += list(x)
        return np.arange(n + 1, n + 1 + len(x), dtype=np.float32)[:, None]

    __call__ = predict


def from_json(s, *a, **k):
    assert s == '{"architecture": 7}', f"architecture {s!r}"
    return Fake()


def fake_tf():
    tf = types.ModuleType("tensorflow")
    tf.__version__ = "0"
    tf.__spec__ = importlib.machinery.ModuleSpec("tensorflow", None)
    tf.keras = types.ModuleType("tensorflow.keras")
    tf.keras.models = types.SimpleNamespace(model_from_json=from_json)
    tf.keras.optimizers = types.SimpleNamespace(SGD=lambda **k: None)
    tf.config = types.SimpleNamespace(list_physical_devices=lambda *a: [])
    sys.modules["tensorflow"], sys.modules["tensorflow.keras"] = tf, tf.keras
    for p in (JS, WT):
        with open(p, "w") as f:
            f.write('{"architecture": 7}' if p == JS else "w")


if "--job" in sys.argv and '"real"' not in sys.argv[sys.argv.index("--job") + 1]:
    fake_tf()
from pycomlink.processing.tensorflow_utils.run_inference import wet_dry_1d_cnn


def build(data, ids, dim, names, order, amp=1.0, steps=None):
    """amp: factor of all values (they are scaled anyway); steps: labels of the time steps in minutes"""
    a = amp * np.array([[[dec(v) for v in s] for s in link] for link in data], dtype=float)
    t = np.datetime64("2020-01-01", "ns") + (np.arange(a.shape[1]) if steps is None else steps) * np.timedelta64(60, "s")
    ds = xr.Dataset({nm: ((dim, "time"), a[:, :, v]) for v, nm in enumerate(names)}, coords={dim: ids, "time": t})
    ds = ds.assign_coords(length=(dim, np.arange(len(ids)) * 1.5)).assign(zz=("time", np.arange(len(t)) * 1.0))
    return ds.transpose("time", dim) if order else ds


def call(ds, dim, names, q, sel_ids, ret_ds, B, name):
    kw = {}
    if dim != "cml_id":
        kw["id_coord"] = dim
    if names != ["tl1", "tl2"]:
        kw["input_vars"] = names
    if sel_ids is not None:
        kw["cml_ids"] = sel_ids
    if name != "CNN":
        kw["prob_name"] = name
    if B:
        kw["batch_size"] = B
    if not ret_ds:
        kw["return_ds"] = False
    keep = ds.copy(deep=True)
    if q != 180:
        kw["seq_len"] = q
    r = wet_dry_1d_cnn(ds, json_url=JS, weights_url=WT, cache_dir=os.path.join(D, "cc"), **kw)
    ok = ds.identical(keep)
    if ret_ds:
        ok = ok and r.drop_vars(name).equals(keep)
        r = r[name]
    r = r.transpose(dim, "time")
    ok = ok and bool(np.all(r[dim].values == keep[dim].values)) and bool(np.all(r.time.values == keep.time.values))
    return r.values, bool(ok)


def windows(p, rows):
    return [[None if x != x else rows[int(x) - 1] for x in row] for row in p]


def replay(c, job, ctx):
    data = c["data"]
    L, T, V = len(data), len(data[0]), len(data[0][0])
    k = L + 3 * T + 5 * V + 7 * c["q"] + sum(v % 13 for link in data for s in link for v in s) + len(c["cells"])
    ids = [["b", "a", "c"], [3, 1, 2], ["x1", "x10", "x2"]][k % 3][:L]
    dim = ["cml_id", "sublink_id"][k % 2]
    names = ["tl1", "tl2", "x"][:V] if k % 3 else ["rsl", "tl1", "b"][:V]
    ds = build(data, ids, dim, names, k % 5 == 0)
    sel = [ids[l - 1] for l in c["sel"]]
    if sel == ids and k % 2:
        sel = None
    if sel and k % 5 == 1 and isinstance(sel[0], str):
        sel = sel + ["zz"]  # not in the data
    Fake.rows = []
    try:
        p, ok = call(ds, dim, names, c["q"], sel, k % 3 != 1, [None, 1, 2, 128][k % 4], "CNN" if k % 4 else "prob")
    except Exception as e:
        return [f"raised {exc_name(e)}: {str(e)[:200]}"]
    m = [] if ok else ["input changed"]
    if k % 3 == 0:
        try:
            call(ds, dim, names + ["nosuch"], c["q"], sel, True, None, "CNN")
            m.append("unknown input variable accepted")
        except Exception:
            pass
    want = {tuple(x) for x in c["cells"]}
    n = max(1, c["st"][0]["n"])
    mean = [s["s"] / n for s in c["st"]]
    sd = [np.sqrt(max(0.0, s["q"] / n - (s["s"] / n) ** 2)) for s in c["st"]]
    sd = [x if x > 1e-9 else 1.0 for x in sd]
    for l in range(L):
        for t in range(T):
            x = p[l][t]
            if ((l + 1, t + 1) in want) == bool(x != x):
                m.append(f"link {l + 1} step {t + 1}: {x}")
            elif x == x:
                w = np.array([[dec(v) for v in s] for s in data[l][t - c["q"] + 1:t + 1]])
                w = (w - mean) / sd
                if not same(Fake.rows[int(x) - 1], w, rtol=1e-5, atol=1e-5):
                    m.append(f"link {l + 1} step {t + 1}: model input {np.asarray(Fake.rows[int(x) - 1]).tolist()}")
    return m


def record(rng, job, tier, progress):
    real = job.get("real")
    if real:
        import tensorflow as tf
        K = tf.keras
    for i in range(job["n"]):
        V = int(rng.randint(1, 4))
        q = int(rng.choice([1, 2, 3] if real else [1, 2, 4, 9]))
        L, T = int(rng.randint(1, 5)), max(1, q + int(rng.choice([-2, 0, 1, 5, 9])))
        big = not real and i % 30 == 7  # more windows than fit into any batch, with a trend
        if not real and i % 20 == 11:  # window length by default
            q, L, T, V = 180, int(rng.randint(1, 3)), 180 + int(rng.randint(-1, 4)), int(rng.randint(1, 3))
        if big:
            q, L, V = int(rng.randint(1, 3)), int(rng.randint(1, 3)), 1
            T = int(rng.randint(4600, 6000)) // L
        v = rng.randint(0, 25, (L, T, V)).astype(float) + rng.randint(-50, 50, V)
        if big:
            v += (np.arange(T) * 10 // T)[:, None] + 10 * np.arange(L)[:, None, None]
        if rng.rand() < .2:
            v[:, :, 0] = 7
        if rng.rand() < .6:
            v[rng.rand(L, T, V) < (.001 if T > 100 else .03)] = np.nan
            v[rng.rand(L, T, V) < min(.01, .5 / T)] = np.inf
            v[rng.rand(L, T, V) < min(.01, .5 / T)] = -np.inf
        sel = [int(x) + 1 for x in rng.permutation(L)[:rng.randint(1, L + 1)]]
        if rng.rand() < .8 and T >= q and not any(np.isfinite(v[l - 1, t - q + 1:t + 1]).all() for l in sel for t in range(q - 1, T)):
            v[sel[0] - 1] = 3
        data = [[encs(s) for s in link] for link in v]
        ids = [f"l{j}" for j in rng.permutation(20)[:L]] if rng.rand() < .5 else [int(j) for j in rng.permutation(9)[:L]]
        dim = ["cml_id", "sublink_id", "link"][rng.randint(3)]
        names = ["tl1", "tl2", "tl0"][:V]
        e = {"data": data, "sel": sel, "q": q, "sc": 1000, "wins": [], "kept": True, "exc": ""}
        progress(e)
        steps = [np.arange(T), np.arange(T), np.arange(T)[::-1], rng.permutation(2 * T)[:T]][rng.randint(4)]
        ds = build(data, ids, dim, names, rng.rand() < .5, float(rng.choice([1, 1, 2**-24, 1024])), steps)
        sid = [ids[l - 1] for l in sel]
        B = [None, 1, 3][rng.randint(3)]
        try:
            if real:
                # one model per position and variable, which returns that value of the window
                got = np.full((L, T, q, V), np.nan)
                m = K.Sequential([K.layers.Input((q, V)), K.layers.Flatten(), K.layers.Dense(1, use_bias=False)])
                with open(JS, "w") as f:
                    f.write(m.to_json())
                for j in range(q):
                    for w in range(V):
                        z = np.zeros((q * V, 1), dtype=np.float32)
                        z[j * V + w] = 1
                        m.set_weights([z])
                        m.save_weights(WT)
                        p, ok = call(ds, dim, names, q, sid, True, B, "CNN")
                        e["kept"] = e["kept"] and ok
                        got[:, :, j, w] = p
                e["wins"] = [[[] if np.isnan(w).all() else [rnds(s, 1000) for s in w] for w in row] for row in got]
            else:
                Fake.rows = []
                p, e["kept"] = call(ds, dim, names, q, sid, bool(rng.rand() < .5), B, "CNN")
                n = sum(x == x for row in p for x in row) * q
                e["sc"] = 1000 if n <= 1500 else 100
                e["wins"] = [[[] if w is None else [rnds(s, e["sc"]) for s in w] for w in row] for row in windows(p, Fake.rows)]
        except Exception as x:
            e["exc"] = exc_name(x)
        yield e
