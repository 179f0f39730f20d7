import warnings
from types import SimpleNamespace as NS
import numpy as np
import pandas as pd
import xarray as xr
from venc import *
from pycomlink.util.maintenance import DeprecatedWarning
from pycomlink.validation.stats import calc_wet_error_rates
from pycomlink.validation.validator import Validator, GridValidator, calc_wet_dry_error


def wrap(a, h):
    """wet = 1, dry = 0, missing; as float, boolean or object array, Series or DataArray"""
    a = np.asarray(a, dtype=float)
    if not np.isnan(a).any():
        a = [a, a.astype(bool), a.astype(int), a.astype("int8")][h % 4]
    elif h % 4 == 1:
        a = np.array([None if v != v else bool(v) for v in a], dtype=object)
    elif h % 4 == 2:
        a = np.array([np.nan if v != v else bool(v) for v in a], dtype=object)
    k = (h // 4) % 3
    return pd.Series(a) if k == 1 else xr.DataArray(a, dims="time") if k == 2 else a


def warned(f, *a):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("default")
        for _ in range(2):  # a second call from the same place warns again
            r = f(*a)
    n = sum(1 for x in w if issubclass(x.category, DeprecatedWarning))
    return r, n // 2 if n % 2 == 0 else -1


def rates(t, p):
    """[(name, false wet rate, missed wet rate, number of warnings)] of both functions"""
    r, n = warned(calc_wet_error_rates, t, p)
    out = [("calc_wet_error_rates", float(r.false), float(r.missed), n)]
    r, n = warned(calc_wet_dry_error, t, p)  # (wet error = missed, dry error = false)
    out.append(("calc_wet_dry_error", float(r[1]), float(r[0]), n))
    return out


def series(ref, link, h, start="2021-02-27 23:58:00", freq="1min"):
    """link object and reference time series from [(slot, value)]"""
    t0, f = pd.Timestamp(start), pd.Timedelta(freq)
    ti = lambda s: pd.DatetimeIndex([t0 + k * f for k, _ in s])
    v = lambda s: np.array([dec(x) for _, x in s], dtype=float)
    data = pd.DataFrame({"txrx_nf": v(link), "other": np.arange(len(link)) * 7.0}, index=ti(link))
    if h % 3 == 1:
        data = data.iloc[::-1]
    t = ti(ref)
    if h % 2:
        t = t.strftime("%Y-%m-%d %H:%M:%S")
    ts = xr.DataArray(v(ref), dims="time", coords={"time": t})
    return NS(data=data), ts


def replay(c, job, ctx):
    h = sum((i + 2) * (x % 7 + 3 * (y % 5)) for i, (x, y) in enumerate(zip(c["ref"], c["link"])))
    msgs = []
    div = lambda q: q["n"] / q["d"] if q["d"] else nan
    try:
        for name, f, m, n in rates(wrap(decs(c["t"]), h), wrap(decs(c["p"]), h)):
            if not same(f, div(c["f"])):
                msgs.append(f"{name}: false wet rate {f} instead of {div(c['f'])}")
            if not same(m, div(c["g"])):
                msgs.append(f"{name}: missed wet rate {m} instead of {div(c['g'])}")
            if n != 1:
                msgs.append(f"{name}: {n} deprecation warnings")
        sel = lambda s: [(i, v) for i, v in enumerate(s) if v != -9]
        cml, ts = series(sel(c["ref"]), sel(c["link"]), h)
        r = float((GridValidator() if h % 5 == 0 else Validator()).calc_stats(cml, ts))
    except Exception as e:
        return msgs + [f"raised {exc_name(e)}: {str(e)[:200]}"]
    m = c["m"]
    if m["n"] < 2:
        if r == r:
            msgs.append(f"correlation {r} of {m['n']} pairs")
    elif m["vx"] and m["vy"] and not same(r, m["num"] / np.sqrt(float(m["vx"]) * m["vy"])):
        msgs.append(f"correlation {r} instead of {m['num'] / np.sqrt(float(m['vx']) * m['vy'])}")
    return msgs


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        n = int(rng.choice([1, 2, 5, 20, 60]))
        e = {"exc": ""}
        h = int(rng.randint(60))
        if it % 2:
            n *= int(rng.choice([1, 5, 20]))
            p = [.6, .3, .1] if rng.rand() < .5 else [.3, .7, 0]
            t, q = rng.choice([0.0, 1.0, nan], n, p=p), rng.choice([0.0, 1.0, nan], n, p=p[::-1] if p[2] == 0 else p)
            if rng.rand() < .2:
                q = t.copy() if rng.rand() < .5 else 1 - t
            e.update(kind="rates", t=encs(t), p=encs(q), r=[])
            progress(e)
            try:
                e["r"] = [{"name": a, "f": rnd(f, 1e5), "m": rnd(m, 1e5), "warned": w} for a, f, m, w in rates(wrap(t, h), wrap(q, h))]
            except Exception as ex:
                e["exc"] = exc_name(ex)
        else:
            n = min(n, 20)
            def one():
                ks = np.sort(rng.choice(n + 10, n, replace=False)) + int(rng.choice([0, 0, 3, 40]))
                return [(int(k), enc(v)) for k, v in zip(ks, np.where(rng.rand(n) < .15, nan, rng.randint(-6, 7, n)))]
            ref, link = one(), one()
            if rng.rand() < .3:
                link = [(k, v if v == NAN else 3 - v) for k, v in ref]
            a, b = ([dict(s)[k] for k in sorted(set(dict(ref)) & set(dict(link))) if dict(ref)[k] != NAN and dict(link)[k] != NAN] for s in (ref, link))
            vx, vy = (len(s) * sum(v * v for v in s) - sum(s) ** 2 for s in (a, b))
            e.update(kind="corr", ref=[list(x) for x in ref], link=[list(x) for x in link], den=int(round(10 * np.sqrt(float(vx) * vy))), r=NAN)
            progress(e)
            fr = ["1s", "1min", "15min", "1h", "1D"][rng.randint(5)]
            try:
                cml, ts = series(ref, link, h, ["2020-02-28 23:50:00", "1999-12-31 23:59:59", "2022-10-30 01:30:00"][rng.randint(3)], fr)
                e["r"] = rnd(float(Validator().calc_stats(cml, ts)), 1e4)
            except Exception as ex:
                e["exc"] = exc_name(ex)
        yield e
