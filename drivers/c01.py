import numpy as np
import pandas as pd
import xarray as xr
from venc import *
from pycomlink.processing.baseline import baseline_constant

S = 10000


def call(form, x, w, n):
    """x, w float arrays -> baseline, via one of the supported input forms"""
    kw = {} if n == 1 and form.endswith("_d") else {"n_average_last_dry": n}
    form = form.replace("_d", "")
    if form == "numpy":
        return baseline_constant(x, w, **kw)
    if form == "kw":
        return baseline_constant(wet=w, trsl=x, **kw)
    if form == "pos":
        return baseline_constant(x, w, n)
    if form == "list":
        return baseline_constant(list(x), list(w), **kw)
    if form == "series":
        ix = pd.date_range("2020-01-01", periods=len(x), freq="1min")
        return baseline_constant(pd.Series(x, index=ix), pd.Series(w, index=ix), **kw)
    if form == "da":
        return baseline_constant(xr.DataArray(x, dims="time"), xr.DataArray(w, dims="time"), **kw).values
    if form == "bool":  # flags without missing values are usually boolean
        return baseline_constant(x, w.astype(bool), **kw)
    if form == "int":
        return baseline_constant(x, w.astype(int), **kw)
    if form == "obj":
        return baseline_constant(x, np.array([None if v != v else bool(v) for v in w], dtype=object), **kw)
    raise AssertionError(form)


FORMS = ["numpy", "kw_d", "pos", "list_d", "series", "da", "obj"]


def replay(c, job, ctx):
    x, w, n = decs(c["x"], S), decs(c["w"]), c["n"]
    exp = decs(c["out"], S)
    if len(x) == 0:
        return []
    forms = FORMS[:]
    if not np.isnan(w).any():
        forms += ["bool", "int"]
    k = sum(c["w"][i] % 7 * (i + 1) for i in range(len(x))) + n
    msgs = []
    for form in {forms[k % len(forms)], "numpy"}:
        try:
            out = call(form, x, w, n)
        except Exception as e:
            msgs.append(f"raised {exc_name(e)} ({form})")
            continue
        if not same(out, exp):
            msgs.append(f"baseline differs from specification ({form}): {np.asarray(out).tolist()}")
    return msgs


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        L = int(rng.choice([1, 2, 3, 5, 10, 30, 80, 200, 1500], p=[.05, .05, .05, .1, .2, .25, .2, .07, .03]))
        n = big(it, int(rng.choice([1, 2, 3, 4, 5, 7, 10, 20])), 60)
        L = big(it, L, 700)
        x = np.round(rng.randint(-9000, 9000, L) / 100.0, 2)
        if rng.rand() < 0.4:
            x[rng.rand(L) < rng.choice([0.02, 0.2])] = np.nan
        if rng.rand() < 0.2:
            x = np.round(x)
        states = [0, 1] if rng.rand() < 0.5 else [0, 1, nan]
        w = np.array(runs(rng, L, states, big(it, rng.choice([1.5, 4, 15]), 120)), dtype=float)
        form = FORMS[rng.randint(len(FORMS))]
        if not np.isnan(w).any() and rng.rand() < 0.5:
            form = ["bool", "int"][rng.randint(2)]
        e = {"x": encs(x, S), "w": encs(w), "n": n, "form": form, "out": [], "exc": ""}
        progress(e)
        try:
            e["out"] = rnds(call(form, x, w, n), S)
        except Exception as ex:
            e["exc"] = exc_name(ex)
        yield e
