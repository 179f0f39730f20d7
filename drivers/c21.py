import os
import numpy as np
import torch
import xarray as xr
from venc import *
from pycomlink.processing.pytorch_utils import run_inference as ri

torch.set_num_threads(1)
DIMS = [("cml_id", "time", "channel_id"), ("time", "cml_id", "channel_id"), ("time", "channel_id", "cml_id")]


def weights(C, W):
    return np.array([[1 + j + 3 * W * c for j in range(W)] for c in range(C)], dtype=np.float32)


class Lin(torch.nn.Module):
    def __init__(self, C, W, shape, attr=True):
        super().__init__()
        self.register_buffer("w", torch.tensor(weights(C, W)))
        self.shape = shape
        if attr:
            self.window_size = W

    def forward(self, x):
        y = (x * self.w).sum(dim=2).sum(dim=1)
        return y if self.shape == 1 else y[:, None]


class Scripted(torch.nn.Module):
    def __init__(self, C, W):
        super().__init__()
        self.register_buffer("w", torch.tensor(weights(C, W)))
        self.drop = torch.nn.Dropout(0.5)  # saved as for training; nothing may be dropped in inference

    def forward(self, x):
        return (self.drop(x) * self.w).sum(dim=2).sum(dim=1, keepdim=True)


def build(data, dims, ids, step=1, order="up", rng=None):
    """The time axis ascending, descending, or in any order (the windows follow the axis)."""
    a = np.array([[[dec(v) for v in s] for s in link] for link in data], dtype=float)
    k = np.arange(a.shape[1])
    k = k[::-1] if order == "down" else rng.permutation(k) if order == "any" else k
    t = np.datetime64("2020-01-01", "ns") + k * step * np.timedelta64(60, "s")
    da = xr.DataArray(a, dims=DIMS[0], coords={"cml_id": ids, "time": t, "channel_id": [f"ch{i}" for i in range(a.shape[2])]}, name="tl")
    return da.transpose(*dims).copy()


def check(ds, da, keep):
    """(predictions [link][time], input data and coordinates kept)"""
    p = ds["predictions"].transpose("cml_id", "time")
    kept = ds["TL"].drop_vars([c for c in ds["TL"].coords if c not in da.coords]).equals(keep.rename("TL")) and da.identical(keep)
    kept = kept and bool(np.all(p.cml_id.values == keep.cml_id.values)) and bool(np.all(p.time.values == keep.time.values))
    return [encs(row) for row in p.values], bool(kept)


def run(model, da, batch, r, default=False):
    keep = da.copy(deep=True)
    res = ri.run_inference(model, da, batch) if default else ri.run_inference(model, da, batch, r)
    ds = ri.redistribute_results(res, da.to_dataset(name="TL"))
    return check(ds, da, keep)


def replay(c, job, ctx):
    L, T, C = len(c["data"]), len(c["data"][0]), len(c["data"][0][0])
    k = L + 3 * T + 5 * C + 7 * c["W"] + 11 * c["r"] + sum(map(sum, c["data"][0]))
    m = []
    for i in range(3):
        k += 1
        ids = [["b", "a", "c"], [3, 1, 2], [7, 8, 9]][k % 3][:L]
        da = build(c["data"], DIMS[k % 3], ids, order="down" if k % 4 == 1 else "up")
        try:
            p, kept = run(Lin(C, c["W"], k % 2), da, [1, 2, 3, 32, 5][(k + i) % 5], c["r"])
        except Exception as e:
            return [f"raised {exc_name(e)}: {str(e)[:200]}"]
        if p != c["pred"]:
            m.append(f"predictions {p}, dims {da.dims}")
        if not kept:
            m.append("input changed")
    return m


def record(rng, job, tier, progress):
    for i in range(job["n"]):
        full = i % 4 == 3
        L, C = int(rng.randint(1, 5)), int(rng.randint(1, 4))
        W = 180 if full else int(rng.choice([1, 2, 5, 9, 17]))
        T = 180 + int(rng.randint(-2, 12)) if full else max(1, W + int(rng.choice([-3, 0, 1, 2, 7, 30])))
        r = int(rng.choice([2, 3, 60, 180, 360])) if full else int(rng.randint(2, 2 * W + 1))
        v = rng.randint(-3, 4, (L, T, C)).astype(float)
        if rng.rand() < .5:
            v[rng.rand(L, T, C) < .02] = np.nan
        if rng.rand() < .3:
            v[rng.randint(L)] = v[rng.randint(L)]
        data = [[encs(s) for s in link] for link in v]
        ids = [f"l{j}" for j in rng.permutation(20)[:L]] if rng.rand() < .5 else [int(j) for j in rng.permutation(9)[:L]]
        da = build(data, DIMS[rng.randint(3)], ids, step=int(rng.choice([1, 5])), order=["up", "up", "down", "any"][rng.randint(4)], rng=rng)
        B = int(rng.choice([1, 2, 7, 32, 1000]))
        e = {"data": data, "W": W, "r": r, "B": B, "dims": list(da.dims), "pred": [], "kept": True, "exc": ""}
        progress(e)
        try:
            if full and i % 8 == 3:
                # through a TorchScript file; the loaded model gets window size 180
                fn = os.path.join(os.environ["TMPDIR"], "model.pt")
                torch.jit.script(Scripted(C, W)).save(fn)
                keep = da.copy(deep=True)
                kw = {} if r == 60 else {"reflength": r}
                e["pred"], e["kept"] = check(ri.cnn_wd(fn, da, batch_size=B, **kw), da, keep)
            else:
                # 180 is the default of models without window size
                e["pred"], e["kept"] = run(Lin(C, W, i % 2, attr=not full), da, B, r, default=r == 60)
        except Exception as x:
            e["exc"] = exc_name(x)
        yield e
