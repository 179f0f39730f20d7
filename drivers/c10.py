import numpy as np
import xarray as xr
from venc import *
from pycomlink.processing.wet_dry.nearby_wetdry import nearby_wetdry

NAMES = ["a_to_all_a", "a_to_all_b", "b_to_all_a", "b_to_all_b"]
EDGE = "nearby-shift-edges"


def distds(ids, d):
    return xr.Dataset({n: (("cml_id1", "cml_id2"), np.array(m, dtype=float)) for n, m in zip(NAMES, d)},
                      coords={"cml_id1": ids, "cml_id2": ids})


def pminda(ids, p, lens, order=("cml_id", "time")):
    T = p.shape[1]
    return xr.DataArray(p, dims=("cml_id", "time"),
                        coords={"cml_id": ids, "time": np.datetime64("2021-05-01", "ns") + np.arange(T) * np.timedelta64(900, "s"),
                                "length": ("cml_id", np.array(lens, dtype=float))}).transpose(*order)


def replay(c, job, ctx):
    p = np.array([decs(r, 2) for r in c["p"]])
    T = p.shape[1]
    k = sum((v % 13) * (i + 1) for r in c["p"] for i, v in enumerate(r))
    far = 40.0
    D = np.zeros((3, 3))
    d = []
    for m in range(4):
        M = np.array([[0, 3.0, 9.9], [3, 0, 5], [9.9, 5, 0]]) + 0.01 * m
        np.fill_diagonal(M, 0)
        if not c["near3"] and m == (k % 4):  # one endpoint distance too large is enough
            M[0, 2] = M[2, 0] = M[1, 2] = M[2, 1] = [10.0, far][k % 2]
        d.append(M)
    ids = ["a", "b", "c"]
    o2 = [[0, 1, 2], [2, 0, 1], [1, 0, 2]][k % 3]
    ds = distds([ids[i] for i in o2], [M[np.ix_(o2, o2)] for M in d])
    if k % 3 and np.isfinite(p).all() and (p == p.round()).all():
        p = p.astype([int, np.int16][k % 2])
    da = pminda(ids, p, [1, 2, 8], ("cml_id", "time") if k % 2 else ("time", "cml_id"))
    # thresholds -1.5 dB and -0.5 dB/km in half dB and 1/16 dB/km, doubled medians: -6 and -16
    kw = dict(radius=10, thresh_median_P=-1.5, thresh_median_PL=-0.5, min_links=c["ml"])
    if k % 2:
        kw.update(interval=15, timeperiod=0.5, min_hours=0.25)
        iv = 15
    else:
        kw.update(interval=5, timeperiod=1 / 6, min_hours=1 / 12)
        iv = 5
    try:
        wet, F = nearby_wetdry(da, ds, **kw)
    except Exception as e:
        return [f"raised {exc_name(e)}: {str(e)[:200]}"]
    msgs = set()
    for i, cid in enumerate(ids):
        w = wet.sel(cml_id=cid).values
        f = F.sel(cml_id=cid).values
        for t in range(T):
            ex = dec(c["wet"][i][t])
            if same(w[t], ex):
                continue
            if ex == 0 and w[t] == 1 and (t == 0 or t >= T - 2):
                msgs.add(EDGE)
            else:
                msgs.add(f"classification of link {i} step {t}: {w[t]} instead of {ex}")
        if not same(f * 60 / iv * 32, decs(c["F"][i]), rtol=1e-6, atol=1e-6):
            msgs.add(f"F score of link {i}: {f.tolist()}")
    return sorted(msgs)


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        n = big(it + 60, int(rng.choice([1, 2, 3, 4, 6, 8], p=[.05, .1, .25, .3, .2, .1])), 16, 120)
        T = big(it, int(rng.choice([1, 2, 4, 8, 20, 40])), 150)
        dflt = rng.rand() < 0.25
        lens = rng.choice([1, 2, 4, 8], n)
        p = np.round(rng.choice([-40.0, -50, -45.5], n)[:, None] - rng.randint(0, 2, (n, T)) * 0.5, 1)
        rain = np.array(runs(rng, T, [0, 0, 1, 2, 6, 12], 3)) * 0.5
        p -= rain[None] * rng.choice([0, 1, 2], (n, 1), p=[.15, .6, .25])
        if rng.rand() < 0.6:
            p[rng.rand(n, T) < rng.choice([0.05, 0.3])] = np.nan
        if rng.rand() < .15:
            p = np.round(np.nan_to_num(p, nan=-41)).astype(int)
        interval = int(rng.choice([5, 15, 30, 120]))
        period = int(rng.choice([1, 2, 3, 6, 12]))
        need = int(rng.randint(1, period + 1))
        kw = dict(interval=interval, timeperiod=period * interval / 60, min_hours=need * interval / 60)
        # avoid float truncation of the number of steps
        kw["timeperiod"] += 1e-9
        kw["min_hours"] += 1e-9
        ml = int(rng.choice([0, 1, 2, 3]))
        far = 1.0 if dflt else float(rng.choice([1, 1 / 64, 32]))  # scale of the network
        thP, thPL, radius = -1.4, -0.7, 15
        if dflt:
            ml = 3
        else:
            thP, thPL, radius = float(rng.choice([-1.5, -1.0, -3])), float(rng.choice([-0.5, -0.25, -1])), int(rng.choice([3, 10, 15]))
            kw.update(radius=radius * far, thresh_median_P=thP, thresh_median_PL=thPL, min_links=ml)
        # distances (units 0.1 km); sometimes equal to the radius
        pos = rng.randint(0, 200, (2, n)) if rng.rand() < 0.7 else rng.randint(0, 40, (2, n))
        d = [np.abs(pos[x][:, None] - pos[y][None, :]) for x, y in ((0, 0), (0, 1), (1, 0), (1, 1))]
        for M in d:
            np.fill_diagonal(M, 0)
        ids = [f"l{i}" for i in rng.permutation(30)[:n]]
        extra = int(rng.choice([0, 0, 2]))  # the distance data may contain further links
        ids2 = ids + [f"z{i}" for i in range(extra)]
        D = []
        for M in d:
            B = rng.randint(0, 40, (n + extra, n + extra))
            B[:n, :n] = M
            np.fill_diagonal(B, 0)
            D.append(B)
        o2 = rng.permutation(n + extra) if rng.rand() < 0.6 else np.arange(n + extra)
        ids2 = [ids2[i] for i in o2]
        D = [M[np.ix_(o2, o2)] for M in D]
        lenQ = [int(v) for v in lens]
        # units: p 0.5 dB; per length 1/16 dB/km; doubled thresholds, rounded up to the grid (strict comparison)
        e = {"p": [encs(r, 2) for r in p], "len": lenQ, "Q": 8, "minlinks": ml, "period": period, "need": need,
             "thP2": int(np.ceil(thP * 4)), "thPL2": int(np.ceil(thPL * 32)), "two": 4, "radius": radius * 10,
             "ids": ids, "ids2": ids2, "d": [M.tolist() for M in D], "wet": [], "F": [], "labels": True, "exc": ""}
        progress(e)
        try:
            ds = distds(ids2, [M / 10.0 * far for M in D])
            da = pminda(ids, p, lens, ("cml_id", "time") if rng.rand() < 0.6 else ("time", "cml_id"))
            wet, F = nearby_wetdry(da, ds, **kw)
            e["labels"] = sorted(wet.cml_id.values) == sorted(ids) and sorted(F.cml_id.values) == sorted(ids) and wet.sizes["time"] == T == F.sizes["time"]
            e["wet"] = [encs(wet.sel(cml_id=i).values) for i in ids]
            e["F"] = [encs(F.sel(cml_id=i).values * 60 / interval, 32, 1e-4) for i in ids]
        except Exception as ex:
            e["exc"] = exc_name(ex)
            e["msg"] = str(ex)[:300]
        yield e
