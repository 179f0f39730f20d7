import numpy as np
import pandas as pd
import xarray as xr
from venc import *
from pycomlink.validation.stats import calc_wet_dry_performance_metrics, calc_wet_error_rates

N = ["N_dry_reference", "N_wet_reference", "N_true_wet", "N_true_dry", "N_false_wet", "N_missed_wet", "N_all_pairs",
     "N_nan_pairs", "N_nan_reference_only", "N_nan_predicted_only"]
R = ["false_wet_rate", "missed_wet_rate", "true_wet_rate", "true_dry_rate"]


def wrap(a, h):
    a = np.asarray(a, dtype=float)
    if not np.isnan(a).any():
        a = [a, a.astype(bool), a.astype(int), a.astype("int8"), a.astype("float32")][h % 5]
    elif h % 2:
        a = a.astype("float32")
    k = (h // 5) % 4
    if k == 1:
        return pd.Series(a)
    if k == 2:
        return xr.DataArray(a, dims="time")
    if k == 3 and len(a) % 2 == 0 and len(a):
        return a.reshape(2, -1)
    return a


def div(a, b):
    return a / b if b else np.nan


def replay(c, job, ctx):
    h = sum((i + 1) * (x % 3 + 5 * (y % 3)) for i, (x, y) in enumerate(zip(c["ref"], c["pred"])))
    a, b = decs(c["ref"]), decs(c["pred"])
    k = c["c"]
    try:
        r = calc_wet_dry_performance_metrics(wrap(a, h), wrap(b, h))
    except Exception as e:
        return [f"raised {exc_name(e)}: {str(e)[:200]}"]
    want = dict(N_dry_reference=k["tn"] + k["fp"], N_wet_reference=k["tp"] + k["fn"], N_true_wet=k["tp"], N_true_dry=k["tn"],
                N_false_wet=k["fp"], N_missed_wet=k["fn"], N_all_pairs=k["all"], N_nan_pairs=k["nanp"],
                N_nan_reference_only=k["nanr"], N_nan_predicted_only=k["nanq"],
                false_wet_rate=div(k["fp"], k["tn"] + k["fp"]), true_dry_rate=div(k["tn"], k["tn"] + k["fp"]),
                missed_wet_rate=div(k["fn"], k["tp"] + k["fn"]), true_wet_rate=div(k["tp"], k["tp"] + k["fn"]))
    if k["tp"] + k["fp"] == 0:
        want["matthews_correlation"] = 0.0
    elif c["prod"] > 0:
        want["matthews_correlation"] = c["num"] / np.sqrt(c["prod"])
    else:
        want["matthews_correlation"] = np.nan
    msgs = [f"{f}: {getattr(r, f)} instead of {w}" for f, w in want.items() if not same(float(getattr(r, f)), w)]
    if k["nanp"] == 0:
        w = calc_wet_error_rates(a > 0, b > 0)
        if not (same(float(w.false), want["false_wet_rate"]) and same(float(w.missed), want["missed_wet_rate"])):
            msgs.append(f"error rates {w}")
    return msgs


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        n = int(rng.choice([1, 2, 8, 30, 120, 400]))
        a = rng.choice([0.0, 1.0], n, p=[.8, .2] if rng.rand() < .6 else [.2, .8])
        b = np.where(rng.rand(n) < rng.choice([0, .2, .5]), 1 - a, a)
        u = rng.rand()
        if u < .05:
            b[:] = 0
        elif u < .1:
            b[:] = 1
        if rng.rand() < .6:
            a[rng.rand(n) < .1] = np.nan
            b[rng.rand(n) < .1] = np.nan
        mult = 1 if rng.rand() < .7 else int(rng.choice([3, 1000, 4000, 150000]))
        mult = max(1, min(mult, 450000 // n))
        e = {"mult": mult, "ref": encs(a), "pred": encs(b), "once": [], "many": [], "exc": "", "mcc": 0, "den": 0, "undef": False}
        progress(e)
        h = int(rng.randint(20))
        o = rng.permutation(n * mult) if rng.rand() < .5 else slice(None)
        try:
            r = calc_wet_dry_performance_metrics(wrap(np.tile(a, mult)[o], h), wrap(np.tile(b, mult)[o], h))
            if mult > 1:
                r1 = calc_wet_dry_performance_metrics(a, b)
                M = R + ["matthews_correlation"]
                e["once"], e["many"] = [[rnd(getattr(q, f), 1e8) for f in M] for q in (r1, r)]
            for f in N:
                e[f] = enc(getattr(r, f))
            for f in R:
                e[f] = rnd(getattr(r, f), 1e5)
            ok = ~(np.isnan(a) | np.isnan(b))
            x, y = a[ok] > 0, b[ok] > 0
            q = float((y).sum()) * x.sum() * (~x).sum() * (~y).sum()
            e["undef"] = bool(q == 0)
            e["den"] = int(round(10 * np.sqrt(q)))
            e["mcc"] = rnd(r.matthews_correlation, 1e4) if e["den"] * 1e4 < 2e9 else 0
            if e["den"] * 1e4 >= 2e9:
                e["den"] = 0
                if y.sum() == 0:
                    e["mcc"] = rnd(r.matthews_correlation, 1e4)
        except Exception as ex:
            e["exc"] = exc_name(ex)
            e["msg"] = str(ex)[:200]
        yield e
