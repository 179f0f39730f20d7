import numpy as np
import pandas as pd
from venc import *
from pycomlink.processing.baseline import baseline_linear

S = 1000


def call(form, x, w, ign):
    kw = {} if (not ign and form.endswith("_d")) else {"ignore_nan": ign}
    form = form.replace("_d", "")
    if form == "numpy":
        return baseline_linear(x, w, **kw)
    if form == "kw":
        return baseline_linear(wet=w, rsl=x, **kw)
    if form == "pos":
        return baseline_linear(x, w, ign)
    if form == "series":
        ix = pd.date_range("2020-01-01", periods=len(x), freq="1min")
        return baseline_linear(pd.Series(x, index=ix), pd.Series(w, index=ix), **kw)
    if form == "mixed":
        return baseline_linear(x, pd.Series(w), **kw)
    if form == "strided":
        y = np.full(2 * len(x), 77.0)
        y[::2] = x
        return baseline_linear(y[::2], w, **kw)
    if form == "bool":
        return baseline_linear(x, w.astype(bool), **kw)
    if form == "int":
        return baseline_linear(x.astype(np.float32).astype(float), w.astype(int), **kw)
    if form == "obj":
        return baseline_linear(x, w.astype(object), **kw)
    raise AssertionError(form)


FORMS = ["numpy", "kw_d", "pos", "series_d", "mixed", "strided", "obj"]


def replay(c, job, ctx):
    x, w, ign = decs(c["x"], S), decs(c["w"]), c["ign"]
    exp = decs(c["out"], S)
    forms = FORMS[:]
    if not np.isnan(w).any():
        forms += ["bool"]
    k = sum(c["w"][i] % 7 * (i + 1) for i in range(len(x))) + ign
    msgs = []
    for form in {forms[k % len(forms)], "numpy"}:
        try:
            out = call(form, x, w, ign)
        except Exception as e:
            msgs.append(f"raised {exc_name(e)} ({form})")
            continue
        if not same(out, exp):
            msgs.append(f"baseline differs from specification ({form}): {np.asarray(out).tolist()}")
    return msgs


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        L = int(rng.choice([1, 2, 3, 5, 10, 30, 80, 200, 800], p=[.05, .05, .05, .1, .2, .25, .2, .07, .03]))
        ign = bool(rng.randint(2))
        x = np.round(rng.randint(-9000, 9000, L) / 100.0, 2)
        if rng.rand() < 0.3:
            x[rng.rand(L) < rng.choice([0.02, 0.2])] = np.nan
        states = [0, 1] if rng.rand() < 0.5 else [0, 1, nan]
        w = np.array(runs(rng, L, states, rng.choice([1.5, 4, 15, 60])), dtype=float)
        form = FORMS[rng.randint(len(FORMS))]
        if not np.isnan(w).any() and rng.rand() < 0.5:
            form = "bool"
        e = {"x": encs(x, S), "w": encs(w), "ign": ign, "form": form, "out": [], "exc": ""}
        progress(e)
        try:
            e["out"] = rnds(call(form, x, w, ign), S)
        except Exception as ex:
            e["exc"] = exc_name(ex)
        yield e
