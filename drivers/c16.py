import numpy as np
import pandas as pd
import xarray as xr
from venc import *
from pycomlink.validation.stats import calc_rain_error_performance_metrics

CNT = ["N_all_pairs", "N_nan_pairs", "N_nan_reference_only", "N_nan_predicted_only"]


# metrics with the unit of rain
DIM = ["R_sum_reference", "R_sum_predicted", "R_mean_reference", "R_mean_predicted", "mean_absolute_error", "root_mean_square_error",
       "false_wet_precipitation_rate", "missed_wet_precipitation_rate", "rainfall_threshold_wet"]


def wrap(a, h):
    a = np.asarray(a, dtype=float)
    if not np.isnan(a).any() and (a == np.rint(a)).all() and h % 2:
        a = a.astype(int)
    k = (h // 2) % 4
    if k == 1:
        return pd.Series(a)
    if k == 2:
        return xr.DataArray(a, dims="time")
    if k == 3 and len(a) % 2 == 0 and len(a):
        return a.reshape(2, -1)
    return a


def div(a, b):
    return a / b if b else np.nan


def replay(c, job, ctx):
    h = sum((i + 1) * (x % 3 + 5 * (y % 3)) for i, (x, y) in enumerate(zip(c["ref"], c["pred"])))
    a = c["a"]
    try:
        r = calc_rain_error_performance_metrics(wrap(decs(c["ref"]), h), wrap(decs(c["pred"]), h), c["th"])
    except Exception as e:
        return [f"raised {exc_name(e)}: {str(e)[:200]}"]
    n = a["n"]
    want = dict(N_all_pairs=a["all"], N_nan_pairs=a["nanp"], N_nan_reference_only=a["nanr"], N_nan_predicted_only=a["nanq"],
                R_sum_reference=a["sx"], R_sum_predicted=a["sy"], R_mean_reference=div(a["sx"], n), R_mean_predicted=div(a["sy"], n),
                mean_absolute_error=div(a["ad"], n), root_mean_square_error=np.sqrt(div(a["dd"], n)),
                false_wet_rate=div(a["fw"], a["dry"]), missed_wet_rate=div(a["mw"], a["wet"]),
                false_wet_precipitation_rate=div(a["fwr"], a["fw"]), missed_wet_precipitation_rate=div(a["mwr"], a["mw"]),
                rainfall_threshold_wet=c["th"])
    if n and a["sx"]:
        want["coefficient_of_variation"] = np.sqrt(c["vd"]) / n / (a["sx"] / n)
    if c["vx"] and c["vy"]:
        want["pearson_correlation"] = c["cxy"] / np.sqrt(c["vx"] * c["vy"])
    else:
        want["pearson_correlation"] = np.nan
    return [f"{f}: {getattr(r, f)} instead of {w}" for f, w in want.items() if not same(float(getattr(r, f)), w, rtol=1e-7, atol=1e-9)]


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        n = int(rng.choice([1, 2, 5, 12, 25]))
        a = rng.choice([0, 0, 0, 1, 2, 3, 9], n).astype(float)
        b = np.clip(a + rng.choice([-2, -1, 0, 0, 0, 1, 3], n), 0, None)
        if rng.rand() < .6:
            a[rng.rand(n) < .15] = np.nan
            b[rng.rand(n) < .15] = np.nan
        th = int(rng.choice([0, 1, 2]))
        mult = 1 if rng.rand() < .7 else max(1, int(rng.choice([3, 1000, 8000, 200000])) // n)
        unit = float(rng.choice([1, 1, 0.25, 64, .1, .7]))  # unit of rain, the last ones not exact in binary
        ok = ~(np.isnan(a) | np.isnan(b))
        if ok.any() and (np.ptp(a[ok]) == 0 or np.ptp(b[ok]) == 0 or not a[ok].any()):
            unit = 1.0  # with others undefined metrics are rounding errors
        o = rng.permutation(n * mult) if rng.rand() < .5 else slice(None)
        e = {"mult": mult, "unit": unit, "ref": encs(a), "pred": encs(b), "th": th, "exc": "", "once": [], "many": []}
        progress(e)
        h = int(rng.randint(8))
        try:
            r = calc_rain_error_performance_metrics(wrap(np.tile(a, mult)[o] * unit, h), wrap(np.tile(b, mult)[o] * unit, h), rainfall_threshold_wet=th * unit)
            r = r._replace(**{f: getattr(r, f) / unit for f in DIM})
            if mult > 1:
                r1 = calc_rain_error_performance_metrics(a, b, th)
                M = [f for f in r._fields if f not in CNT and "sum" not in f]
                e["once"], e["many"] = [[rnd(getattr(q, f) / 16, 1e8) for f in M] for q in (r1, r)]
            for f in CNT + ["R_sum_reference", "R_sum_predicted", "rainfall_threshold_wet"]:
                e[f] = enc(getattr(r, f))
            for f in ("R_mean_reference", "R_mean_predicted", "mean_absolute_error", "coefficient_of_variation", "pearson_correlation",
                      "false_wet_rate", "missed_wet_rate", "false_wet_precipitation_rate", "missed_wet_precipitation_rate"):
                e[f] = rnd(getattr(r, f), 1000)
            e["root_mean_square_error"] = rnd(r.root_mean_square_error, 100)
            ok = ~(np.isnan(a) | np.isnan(b))
            x, y, k = a[ok], b[ok], ok.sum()
            v = lambda q: k * (q * q).sum() - q.sum() ** 2
            e["sd"] = int(round(10 * np.sqrt(v(y - x))))
            e["den"] = int(round(np.sqrt(v(x) * v(y))))
        except Exception as ex:
            e["exc"] = exc_name(ex)
            e["msg"] = str(ex)[:200]
        yield e
