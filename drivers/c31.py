import datetime
import numpy as np
import pandas as pd
from venc import *
from pycomlink.spatial.interpolator import clim_var_param

KEYS = {"sill", "range", "nugget"}


def spelled(y, m, d, h):
    t = datetime.datetime(y, m, d)
    return [f"{y:04d}{m:02d}{d:02d}", f"{y:04d}-{m:02d}-{d:02d}", f"{y:04d}-{m:02d}-{d:02d} 23:45", f"{y:04d}{m:02d}{d:02d}T0815",
            pd.Timestamp(t), t, np.datetime64(t.strftime("%Y-%m-%d")), f"{y:04d}/{m:02d}/{d:02d}", t.strftime("%d %B %Y"), t.date()][h % 10]


def root(v):
    return float(np.abs(v)) ** 0.25


def replay(c, job, ctx):
    h = c["y"] + 31 * c["m"] + c["d"] + c["h100"]
    hours = c["h100"] / 100
    if hours == int(hours) and h % 3 == 0:
        hours = int(hours)
    elif h % 3 == 1:
        hours = np.float64(hours)
    s = spelled(c["y"], c["m"], c["d"], h)
    try:
        r = clim_var_param(s, hours) if h % 2 else clim_var_param(date_str=s, time_scale_hours=hours)
        if c["h100"] == 25 and h % 4 == 2:
            r = clim_var_param(s)
        if (c["m"], c["d"], h % 2) == (4, 4, 0):
            a, b = clim_var_param(time_scale_hours=hours), clim_var_param("2013-04-04", hours)
            if a != b:
                return [f"default date gives {a} instead of {b}"]
    except Exception as e:
        return [f"raised {exc_name(e)} for {s!r}: {str(e)[:200]}"]
    msgs = []
    if set(r) != KEYS:
        return [f"keys {list(r)}"]
    if not (float(r["sill"]) > 0 and abs(root(r["sill"]) - c["sr"] / 1e6) < 4e-5):
        msgs.append(f"sill {r['sill']} instead of {(c['sr'] / 1e6) ** 4} at {s!r}, {hours} h")
    if not (float(r["range"]) > 0 and abs(root(r["range"] * 1000) - c["rr"] / 1e6) < 8e-5):
        msgs.append(f"range {r['range']} instead of {(c['rr'] / 1e6) ** 4 / 1000} at {s!r}, {hours} h")
    if not same(float(r["nugget"]), 0.1 * float(r["sill"])):
        msgs.append(f"nugget {r['nugget']} with sill {r['sill']}")
    return msgs


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        t = datetime.date(1800, 1, 1) + datetime.timedelta(days=int(rng.randint(0, 150000)))
        if rng.rand() < .25:
            t = t.replace(month=1 if (k := rng.randint(4)) == 0 else [2, 3, 12][k - 1], day=[1, 28, 1, 31][k])
        D = float([1 / 12, .25, .5, 1, 24, 3, 48, 1 / 60][rng.randint(8)] if rng.rand() < .4 else np.round(10 ** rng.uniform(-1, 1.6), 3))
        h = int(rng.randint(10))
        c = dict(rm=15.51 * D**.09, ra=2.06 * D**-.12, rp=7.37 * D**.22, sm=.84 * D**-.25, sa=.20 * D**-.37, sp=162 * D**-.03)
        e = {"y": t.year, "m": t.month, "d": t.day, "c": {k: rnd(v, 1e4 if k[1] == "p" else 1e6) for k, v in c.items()},
             "hours": str(D), "spelling": h, "rr": 0, "sr": 0, "sill": 0, "nug": 0, "keys": True, "exc": ""}
        progress(e)
        try:
            r = clim_var_param(spelled(t.year, t.month, t.day, h), D)
        except Exception as ex:
            e["exc"] = exc_name(ex)
            yield e
            continue
        sc = autoscale([r["sill"]])
        neg = lambda v: 1 if v > 0 else np.nan
        e.update(keys=set(r) == KEYS, rr=rnd(root(r["range"] * 1000) * neg(r["range"]), 1e6), sr=rnd(root(r["sill"]) * neg(r["sill"]), 1e6),
                 sill=rnd(r["sill"], sc), nug=rnd(r["nugget"], sc))
        yield e
