import numpy as np
import pandas as pd
import xarray as xr
from types import SimpleNamespace as NS
from venc import *
from pycomlink.validation.validator import GridValidator

BASE = pd.Timestamp("2020-06-01")


def stamps(ts, name="time"):
    return pd.DatetimeIndex([BASE + pd.Timedelta(minutes=int(t)) for t in ts], name=name)


def minutes(idx):
    return [enc((pd.Timestamp(t) - BASE) / pd.Timedelta(minutes=1)) for t in idx]


class Cml:
    """A link with the interface of a Comlink object as far as the validator uses it."""

    def __init__(self, xa, ya, xb, yb, t1, t2, tz=None):
        self.c = NS(lon_a=xa, lat_a=ya, lon_b=xb, lat_b=yb)
        # channel 1 starts at t1 and ends before, channel 2 starts later and ends at t2
        m1, m2 = t1 + max(1, (t2 - t1) // 2), t1 + max(1, (t2 - t1) // 3)
        f = lambda a, b: pd.DataFrame({"rx": 0.0}, index=stamps(sorted({a, (a + b) // 2, b})))
        self.channel_1 = NS(data=f(t1, m1))
        self.channel_2 = NS(data=f(m2, t2))

    def get_coordinates(self):
        return self.c


def grid(field, times, sx, ox, oy, flip):
    """Data set with pixel centres at 2j+1, 2i+1 (scaled, moved); flip: rows from north to south."""
    T, R, C = field.shape
    x, y = np.meshgrid((2 * np.arange(C) + 1) * sx + ox, (2 * np.arange(R) + 1) * sx + oy)
    if flip:
        field, x, y = field[:, ::-1], x[::-1], y[::-1]
    return xr.Dataset({"R": (("time", "y", "x"), field), "other": (("time", "y", "x"), field * 0 - 1)},
                      coords={"time": stamps(times), "longitudes": (("y", "x"), x), "latitudes": (("y", "x"), y)})


def replay(c, job, ctx):
    h = c["a"][0] * 7 + c["a"][1] * 3 + c["b"][0] + 5 * c["b"][1] + c["n"]
    F0 = np.array(c["field"], dtype=float)
    F = np.stack([F0 + t for t in c["gt"]])
    sx, ox, oy = [(1.0, 0.0, 0.0), (0.005, 11.0, 47.5), (0.5, -3.0, -2.0)][h % 3]
    ds = grid(F, c["gt"], sx, ox, oy, h % 2 == 1)
    cml = Cml(c["a"][0] * sx + ox, c["a"][1] * sx + oy, c["b"][0] * sx + ox, c["b"][1] * sx + oy, c["t1"], c["t2"])
    s0 = snapshot(ds)
    try:
        gv = GridValidator(xr_ds=ds)
        ts = gv.get_time_series(cml, "R")
    except Exception as e:
        return [f"raised {exc_name(e)}: {str(e)[:200]}"]
    m = []
    if minutes(ts.index) != c["times"]:
        m.append(f"time steps {minutes(ts.index)}")
    elif not same(ts["R"].values * c["n"], np.array(c["num"], dtype=float), rtol=1e-6, atol=1e-6):
        m.append(f"weighted sums {ts['R'].tolist()} instead of {[v / c['n'] for v in c['num']]}")
    if not ds.identical(s0):
        m.append("grid changed")
    for label in ("right", "left"):
        v = np.array([2.0 ** i for i in range(len(c["samples"]))])
        df = pd.DataFrame({"v": v, "u": -v}, index=stamps(c["samples"]))
        tz = None
        if h % 5 == 0:
            df.index = df.index.tz_localize("utc")
            tz = "utc"
        d0 = snapshot(df)
        try:
            r = gv.resample_to_grid_time_series(df, label, grid_time_zone=tz) if tz else gv.resample_to_grid_time_series(df, label)
        except Exception as e:
            m.append(f"resample raised {exc_name(e)}: {str(e)[:200]}")
            continue
        if not unchanged(d0, df):
            m.append("resample changed its input")
        idx = r.index.tz_localize(None) if r.index.tz is not None else r.index
        if minutes(idx) != [g[0] for g in c[label]]:
            m.append(f"resample {label} times {minutes(idx)}")
        elif not same(r["v"].values, [v[np.array(g[1]) - 1].mean() for g in c[label]]) or not same(r["u"].values, -r["v"].values):
            m.append(f"resample {label} means {r['v'].tolist()}")
    return m


def fractions(xa, ya, xb, yb, R, C):
    """Fraction of the segment in every pixel (clipping of the parameter interval)."""
    W = np.zeros((R, C))
    for i in range(R):
        for j in range(C):
            lo, hi = 0.0, 1.0
            for p, d, a, b in ((xa, xb - xa, 2 * j, 2 * j + 2), (ya, yb - ya, 2 * i, 2 * i + 2)):
                if abs(d) < 1e-15:
                    if p < a or p > b:
                        hi = -1
                else:
                    t0, t1 = sorted(((a - p) / d, (b - p) / d))
                    lo, hi = max(lo, t0), min(hi, t1)
            W[i, j] = max(0.0, hi - lo)
    return W


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        if it % 2 == 0:
            R, C = int(rng.randint(3, 9)), int(rng.randint(3, 9))
            xa, xb = rng.uniform(0.05, 2 * C - .05, 2)
            ya, yb = rng.uniform(0.05, 2 * R - .05, 2)
            if rng.rand() < .25:  # partly outside of the grid
                xb, yb = rng.uniform(-3, 2 * C + 3), rng.uniform(-3, 2 * R + 3)
            elif rng.rand() < .3:
                xb, yb = xa + rng.uniform(-.04, .04), ya + rng.uniform(-.04, .04)
            T = big(it + 1, int(rng.choice([1, 3, 10])), 50, 40)
            gt = np.sort(rng.permutation(60)[:T])
            const = float(rng.randint(1, 9)) if rng.rand() < .3 else np.nan
            F = rng.randint(0, 60, (T, R, C)).astype(float) if np.isnan(const) else np.full((T, R, C), const)
            t1, t2 = sorted(rng.randint(-5, 66, 2))
            if rng.rand() < .4:
                t1 = int(gt[0])
            if rng.rand() < .4:
                t2 = int(gt[-1])
            if t2 - t1 < 4:
                t1, t2 = -4, 70
            W = fractions(xa, ya, xb, yb, R, C)
            inside = 0 < xb < 2 * C and 0 < yb < 2 * R
            S = 1e5
            e = {"k": "series", "gt": [int(t) for t in gt], "t1": int(t1), "t2": int(t2), "times": [], "out": [],
                 "want": rnds((F * W).sum((1, 2)), S), "const": rnd(const if inside else np.nan, S), "exc": "", "link": [xa, ya, xb, yb]}
            progress(e)
            sx = float(rng.choice([1, .01, 3]))
            try:
                gv = GridValidator(xr_ds=grid(F, gt, sx, 5, 40, bool(rng.randint(2))))
                r = gv.get_time_series(Cml(xa * sx + 5, ya * sx + 40, xb * sx + 5, yb * sx + 40, int(t1), int(t2)), "R")
                e["times"], e["out"] = minutes(r.index), rnds(r["R"].values, S)
            except Exception as ex:
                e["exc"] = exc_name(ex)
                e["msg"] = str(ex)[:200]
            yield e
        else:
            gts = np.unique(rng.randint(0, 100, int(rng.choice([1, 3, 12]))))
            n = int(rng.choice([1, 5, 40]))
            ts = np.sort(rng.permutation(140)[:n]) - 20
            v = rng.randint(-50, 50, n).astype(float)
            if rng.rand() < .5:
                v[rng.rand(n) < rng.choice([.2, .7])] = np.nan
            label = str(rng.choice(["left", "right"]))
            e = {"k": "resample", "gts": [int(t) for t in gts], "ts": [int(t) for t in ts], "v": encs(v), "label": label,
                 "idx": [], "mean": [], "unchanged": True, "exc": ""}
            progress(e)
            try:
                gv = GridValidator(xr_ds=grid(np.zeros((len(gts), 3, 3)), gts, 1, 0, 0, False))
                gv.get_time_series(Cml(1, 1, 3, 3.5, -50, 150), "R")
                df = pd.DataFrame({"v": v.astype(float)}, index=stamps(ts))
                zone, kw = [None, None, "UTC", "Europe/Berlin", "America/New_York"][rng.randint(5)], {}
                if zone:  # grid times without zone belong to the given one, the link's times to another
                    df.index = df.index.tz_localize(zone).tz_convert(["UTC", "Asia/Kolkata", zone][rng.randint(3)])
                    kw = {"grid_time_zone": zone}
                d0 = snapshot(df)
                r = gv.resample_to_grid_time_series(df, label, **kw)
                if r.index.tz is not None:
                    r.index = r.index.tz_convert(zone).tz_localize(None)
                e["unchanged"] = unchanged(d0, df)
                e["idx"], e["mean"] = minutes(r.index), rnds(r["v"].values, 1000)
            except Exception as ex:
                e["exc"] = exc_name(ex)
                e["msg"] = str(ex)[:200]
            yield e
