import numpy as np
import pandas as pd
import xarray as xr
from venc import *
from pycomlink.processing.blackout_gap_detection import (
    get_blackout_start_and_end as markers,
    created_blackout_gap_mask_from_start_end_markers as maskf,
)

S = 10


def call(form, x, thr):
    if form == "numpy":
        gs, ge = markers(x, thr)
    elif form == "kw":
        gs, ge = markers(rsl_threshold=thr, rsl=x)
    elif form == "series":
        gs, ge = markers(pd.Series(x, index=pd.date_range("2020", periods=len(x), freq="1min")), thr)
    elif form == "da":
        gs, ge = markers(xr.DataArray(x, dims="time"), thr)
    elif form == "da2":  # two links, the other one with different data
        y = np.where(np.isnan(x), -50.0, np.nan)
        d = xr.DataArray(np.stack([y, x]), dims=("cml_id", "time"))
        gs, ge = markers(d, thr)
        gs, ge = gs.isel(cml_id=1), ge.isel(cml_id=1)
    elif form == "da2t":  # time first, threshold per link
        y = np.where(np.isnan(x), -50.0, np.nan)
        d = xr.DataArray(np.stack([x, y], axis=1), dims=("time", "cml_id"))
        gs, ge = markers(d, xr.DataArray([thr, thr - 7.0], dims="cml_id"))
        gs, ge = gs.isel(cml_id=0), ge.isel(cml_id=0)
    gs, ge = np.asarray(gs), np.asarray(ge)
    mf = maskf(x, gs, ge)
    mr = maskf(x[::-1], ge[::-1], gs[::-1])[::-1]
    return gs, ge, np.asarray(mf), np.asarray(mr)


FORMS = ["numpy", "kw", "series", "da", "da2", "da2t"]


def bl(v):
    return [bool(b) for b in v]


def replay(c, job, ctx):
    x = decs(c["x"], S)
    thr = c["thr"] / S
    k = sum((v % 13) * (i + 1) for i, v in enumerate(c["x"]))
    msgs = []
    for form in {"numpy", FORMS[k % len(FORMS)]}:
        before = x.copy()
        try:
            gs, ge, mf, mr = call(form, x, thr)
        except Exception as e:
            msgs.append(f"raised {exc_name(e)} ({form})")
            continue
        for nm, got in (("gs", gs), ("ge", ge), ("mf", mf), ("mr", mr)):
            if bl(got) != c[nm]:
                # a mask which is not wrong but better than the known finding is fine
                if nm in ("mf", "mr") and fixed_island(c, bl(got), nm):
                    continue
                msgs.append(f"{nm} differs from specification ({form}): {bl(got)}")
    return msgs


def fixed_island(c, got, nm):
    """mask as it would be without the known finding"""
    x, gs, ge = c["x"], c["gs"], c["ge"]
    if nm == "mr":
        x, gs, got = x[::-1], ge[::-1], got[::-1]
    exp, start = [], False
    for i, v in enumerate(x):
        if v != NAN:
            start = gs[i]
        exp.append(v == NAN and start)
    return exp == got


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        L = big(it, int(rng.choice([1, 2, 3, 5, 10, 30, 80, 300])), 2000)
        thr = float(rng.choice([-65, -70.5, 0, 10]))
        x = thr + rng.choice([-5.0, -0.1, 0.0, 0.1, 12.0], size=L)
        if rng.rand() < 0.5:
            x = thr + np.array(runs(rng, L, [-3.0, 4.0, nan], rng.choice([1.2, 3, 10])), dtype=float)
        else:
            x[rng.rand(L) < rng.choice([0.1, 0.5])] = np.nan
        form = FORMS[rng.randint(len(FORMS))]
        e = {"x": encs(x, S), "thr": enc(thr, S), "form": form, "gs": [], "ge": [], "mf": [], "mr": [], "exc": ""}
        progress(e)
        try:
            gs, ge, mf, mr = call(form, x, thr)
            e.update(gs=bl(gs), ge=bl(ge), mf=bl(mf), mr=bl(mr))
        except Exception as ex:
            e["exc"] = exc_name(ex)
        yield e
