import numpy as np
import xarray as xr
from venc import *
from pycomlink.processing.nearby_rain_retrival import (
    nearby_correct_received_signals, nearby_determine_reference_level, nearby_rainfall_retrival)
from pycomlink.processing.k_R_relation import a_b
U = 1.0  # dB per unit


def da(x, k=0, n=2):
    """The series as link 1 of a data array with n links (the other links: shifted / missing values)."""
    x = np.asarray(x, dtype=float)
    if len(x) % 2 and k % 3 == 0 and np.isfinite(x).all() and (x == x.round()).all():
        x = x.astype(int)  # as recorded by the hardware
    t = np.datetime64("2021-05-01", "ns") + np.arange(len(x)) * np.timedelta64(900, "s")
    if k % 3 == 0:
        return xr.DataArray(x, dims="time", coords={"time": t})
    y = np.stack([x[::-1], x, np.full(len(x), np.nan)])
    r = xr.DataArray(y, dims=("cml_id", "time"), coords={"cml_id": ["q", "x", "m"], "time": t})
    return r if k % 3 == 1 else r.transpose("time", "cml_id")


def vals(r):
    r = r.sel(cml_id="x") if "cml_id" in r.dims else r
    return np.asarray(r.transpose("time").values, dtype=float)


def replay(c, job, ctx):
    k = sum((v % 13 + 1) * (i + 1) for i, v in enumerate(c["pmin"] + c["wet"]))
    pmin, pmax, wet = (da(decs(c[x]), k) for x in ("pmin", "pmax", "wet"))
    try:
        ref = nearby_determine_reference_level(pmin, pmax, wet, n_average_dry=c["n"], min_periods=c["minp"])
        cmin, cmax = nearby_correct_received_signals(pmin, pmax, wet, ref)
        F = ref * 0
        kw = dict(a=0.25, b=1.0) if k % 2 else {"a": 0.5, "b": 1.0}
        L = 1 / kw["a"]
        R = nearby_rainfall_retrival(ref, cmin, cmax, F, length=L, waa_max=c["waa"] / 4, alpha=c["al"] / 4,
                                     F_value_threshold=None if k % 5 == 0 else -32.5, **kw)
    except Exception as e:
        return [f"raised {exc_name(e)}: {str(e)[:200]}"]
    msgs = []
    for nm, got, sc in (("ref", ref, 4), ("cmin", cmin, 4), ("cmax", cmax, 4), ("rain", R, 16)):
        if not same(vals(got) * sc, decs(c[nm]), rtol=1e-9, atol=1e-9):
            msgs.append(f"{nm}: {vals(got).tolist()}")
    return msgs


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        kind = ["ref", "corr", "rain"][it % 3]
        T = big(it, int(rng.choice([1, 2, 5, 12, 40, 120])), 500, 50)
        lay = int(rng.randint(3))
        pmin = -40.0 - rng.randint(0, 4, T) - np.array(runs(rng, T, [0, 0, 3, 10, 25], 3))
        pmax = pmin + rng.randint(0, 6, T)
        wet = np.array(runs(rng, T, [0, 0, 1, np.nan] if rng.rand() < .6 else [0, 1], 3), dtype=float)
        if rng.rand() < 0.6:
            pmin[rng.rand(T) < .15] = np.nan
            pmax[rng.rand(T) < .15] = np.nan
        if kind == "ref":
            n = int(rng.choice([1, 2, 3, 8, 96]))
            minp = int(rng.randint(1, n + 1)) if rng.rand() < .7 else 1
            e = {"k": kind, "pmin": encs(pmin), "pmax": encs(pmax), "wet": encs(wet), "n": n, "minp": minp, "out": [], "exc": ""}
            progress(e)
            kw = {} if (n, minp) == (96, 1) else dict(n_average_dry=n, min_periods=minp)
            try:
                e["out"] = encs(vals(nearby_determine_reference_level(da(pmin, lay), da(pmax, lay), da(wet, lay), **kw)), 4)
            except Exception as ex:
                e["exc"] = exc_name(ex)
            yield e
        elif kind == "corr":
            ref = np.round((-40 - rng.randint(-3, 12, T)) + rng.choice([0, .25, .5], T), 2)
            ref[rng.rand(T) < rng.choice([0, .2])] = np.nan
            eq = rng.rand(T) < .2
            pmin = np.where(eq, ref, pmin)
            eq = rng.rand(T) < .2
            pmax = np.where(eq, ref, pmax)
            # the spec takes the signals in dB, the reference in quarter dB
            pmin, pmax = np.round(pmin), np.round(pmax)
            e = {"k": kind, "pmin": encs(pmin), "pmax": encs(pmax), "wet": encs(wet), "ref": encs(ref, 4), "cmin": [], "cmax": [], "exc": ""}
            progress(e)
            try:
                a, b = nearby_correct_received_signals(da(pmin, lay), da(pmax, lay), da(wet, lay), da(ref, lay))
                e["cmin"], e["cmax"] = encs(vals(a), 4), encs(vals(b), 4)
            except Exception as ex:
                e["exc"] = exc_name(ex)
            yield e
        else:
            ref = -40 - rng.randint(-8, 8, T) / 4
            cmin = ref - rng.choice([0, 0, 1, 4, 8, 9.25, 20, 60], T)
            cmax = np.maximum(cmin, ref - rng.choice([0, 0, 1, 4, 8, 9.25], T))
            dflt = rng.rand() < .3
            waa = float(rng.choice([0, 1, 2.25, 4])) if not dflt else 2.3
            if rng.rand() < .6:  # any attenuation, in particular little more and little less than the wet antenna
                near = lambda: ref - np.maximum(0, np.round(20 * (waa + rng.uniform(-1, 1, T) ** 3 * rng.choice([1, 3, 20]))) / 20)
                cmin = near()
                cmax = np.maximum(cmin, near())
            if rng.rand() < .3:  # not ordered
                cmin, cmax = np.where(rng.rand(T) < .5, cmin, cmax), np.where(rng.rand(T) < .5, cmin, cmax)
            for x in (ref, cmin, cmax):
                x[rng.rand(T) < rng.choice([0, .1])] = np.nan
            thr = float(rng.choice([-32.5, -10, 0]))
            usef = bool(rng.rand() < .7)
            F = rng.choice([-60, -32.75, -32.5, -32.25, -10.25, -10, -5, 0, 0.25, 40, np.nan], T)
            alpha = float(rng.choice([0, .25, .33, 1])) if not dflt else .33
            L = float(rng.choice([0.5, 2.5, 11, 30]))
            args = dict(length=L)
            if not dflt:
                args.update(alpha=alpha, waa_max=waa)
                if not usef:
                    args["F_value_threshold"] = None
                else:
                    args["F_value_threshold"] = thr
            else:
                usef, thr = True, -32.5
            if rng.rand() < .5:
                f, pol = float(rng.choice([7, 18.7, 38])), str(rng.choice(["h", "V"]))
                approx = str(rng.choice(["ITU_2003", "ITU_2005"]))
                ca, cb = a_b(f, pol, approx_type=approx)
                ca, cb = float(np.ravel(ca)[0]), float(np.ravel(cb)[0])
                args.update(f_GHz=f, pol=pol)
                if approx != "ITU_2005" or rng.rand() < .3:
                    args["a_b_approximation"] = approx
            else:
                ca, cb = float(rng.uniform(.01, 1)), float(rng.uniform(.7, 1.3))
                args.update(a=ca, b=cb)
            x, y = np.maximum(ref - cmin - waa, 0), np.maximum(ref - cmax - waa, 0)
            inv = lambda A: (A / (ca * L)) ** (1 / cb)
            want = alpha * inv(x) + (1 - alpha) * inv(y)
            e = {"k": kind, "ref": encs(ref, 20), "cmin": encs(cmin, 20), "cmax": encs(cmax, 20), "F": encs(F, 4),
                 "waa": round(waa * 20), "usef": usef, "thr": int(thr * 4), "R": [], "want": [], "exc": "",
                 "par": [alpha, L, ca, cb]}
            progress(e)
            try:
                R = vals(nearby_rainfall_retrival(da(ref, lay), da(cmin, lay), da(cmax, lay), da(F, lay), **args))
                sc = autoscale(want, top=1e7, most=1e6)
                e["R"], e["want"] = rnds(R, sc), rnds(want, sc)
                # keep tiny values apart from zero, and signs
                e["R"] = [v if v != 0 or r == 0 else (1 if r > 0 else -1) for v, r in zip(e["R"], R)]
            except Exception as ex:
                e["exc"] = exc_name(ex)
            yield e
