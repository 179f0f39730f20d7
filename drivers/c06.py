import numpy as np
import pandas as pd
import xarray as xr
from venc import *
from pycomlink.processing.wet_antenna import waa_schleiss_2013

S = 1000


def call(form, x, b, w, wmax, dt, tau):
    if form == "numpy":
        return waa_schleiss_2013(x, b, w, wmax, dt, tau)
    if form == "kw":
        return waa_schleiss_2013(tau=tau, delta_t=dt, waa_max=wmax, wet=w, baseline=b, rsl=x)
    if form == "list":
        return waa_schleiss_2013(list(x), list(b), list(w), waa_max=wmax, delta_t=dt, tau=tau)
    if form == "series":
        ix = pd.date_range("2020-01-01", periods=len(x), freq="1min")
        return waa_schleiss_2013(*[pd.Series(v, index=ix) for v in (x, b, w)], wmax, dt, tau=tau)
    if form == "da":
        return waa_schleiss_2013(*[xr.DataArray(v, dims="time") for v in (x, b, w)], wmax, dt, tau).values
    if form == "bool":
        return waa_schleiss_2013(x, b, w.astype(bool), wmax, dt, tau)
    if form == "int":
        return waa_schleiss_2013(x, b, w.astype(int), wmax, dt, tau)
    raise AssertionError(form)


FORMS = ["numpy", "kw", "list", "series", "da"]
RATE = {(1, 2): (2.5, 15), (1, 4): (5, 60.0), (1, 1): (0.5, 1.5), (3, 2): (15, 30)}


def replay(c, job, ctx):
    a, w = decs(c["a"], 1024), decs(c["w"])
    exp = decs(c["out"], 1024)
    wmax = c["wmax"] / 1024
    b = np.array([50.0, -20.0, 3.0, 7.5, 0.0, 1.0])[: len(a)]
    x = a + b
    if c["a"][0] == NAN:
        b, x = np.where(np.isnan(a), np.nan, b), np.where(np.isnan(a), 1.0, x)
    dt, tau = RATE[(c["p"], c["q"])]
    forms = FORMS[:] + ([] if np.isnan(w).any() else ["bool", "int"])
    k = sum((v % 7) * (i + 1) for i, v in enumerate(c["w"])) + sum(v % 5 for v in c["a"])
    msgs = []
    for form in {forms[k % len(forms)] if k % 4 == 0 else "numpy", "numpy"}:
        try:
            out = call(form, x, b, w, wmax, dt, tau)
        except Exception as e:
            msgs.append(f"raised {exc_name(e)} ({form})")
            continue
        if not same(out, exp):
            msgs.append(f"waa differs from specification ({form}): {np.asarray(out).tolist()}")
    return msgs


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        L = int(rng.choice([1, 2, 3, 5, 10, 30, 80, 300, 1000], p=[.05, .05, .05, .1, .2, .25, .2, .07, .03]))
        b = np.round(rng.uniform(40, 60, L), 3)
        a = np.round(np.abs(rng.normal(0, rng.choice([0.5, 3, 10]), L)) * rng.choice([1, -0.3], L, p=[.85, .15]), 3)
        x = np.round(a + b, 3)
        if rng.rand() < 0.4:
            (x if rng.rand() < 0.5 else b)[rng.rand(L) < rng.choice([0.02, 0.3])] = np.nan
        states = [0, 1] if rng.rand() < 0.5 else [0, 1, nan]
        w = np.array(runs(rng, L, states, rng.choice([1.5, 4, 15])), dtype=float)
        wmax = float(rng.choice([0.5, 1.0, 2.3, 4.0]))
        dt = [1, 2, 5, 15, 0.5, 2.5, 0.25][rng.randint(7)]  # minutes, also fractions
        tau = int(rng.choice([15, 20, 45, 90]))
        form = FORMS[rng.randint(len(FORMS))]
        if not np.isnan(w).any() and rng.rand() < 0.5:
            form = ["bool", "int"][rng.randint(2)]
        e = {"x": encs(x, S), "b": encs(b, S), "w": encs(w), "wmax": enc(wmax, S), "p": int(12 * dt), "q": 4 * tau,
             "form": form, "out": [], "exc": ""}
        progress(e)
        try:
            e["out"] = rnds(call(form, x, b, w, wmax, dt, tau), S)
        except Exception as ex:
            e["exc"] = exc_name(ex)
        yield e
