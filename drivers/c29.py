import numpy as np
import xarray as xr
from venc import *
from pycomlink.processing.baseline import baseline_constant
from pycomlink.processing.k_R_relation import calc_R_from_A
from pycomlink.processing.wet_antenna import waa_schleiss_2013, waa_leijnse_2008_from_A_obs, waa_pastorek_2021_from_A_obs

U = 480.0  # units per dB


def chain(x, w, n, kind, L, rain, f=None, pol=None, wp=(2.0, 1.0, 6.0), pos=False):
    """The chain on arrays or data arrays -> baseline, wet antenna attenuation, rain rate."""
    b = baseline_constant(x, w, n) if pos else baseline_constant(trsl=x, wet=w, n_average_last_dry=n)
    if kind == "schleiss":
        v = waa_schleiss_2013(x, b, w, *wp) if pos else waa_schleiss_2013(rsl=x, baseline=b, wet=w, waa_max=wp[0], delta_t=wp[1], tau=wp[2])
    elif kind == "none":
        v = 0.0
    else:
        A = x - b
        A = A.where(~(A < 0), 0) if isinstance(A, xr.DataArray) else np.where(A < 0, 0, A)
        fn = waa_leijnse_2008_from_A_obs if kind == "leijnse" else waa_pastorek_2021_from_A_obs
        v = fn(A_obs=A, f_Hz=f * 1e9, pol=pol, L_km=L) if kind == "leijnse" else fn(A_obs=A, f_Hz=f * 1e9, pol=pol, L_km=L, A_max=wp[0])
    R = calc_R_from_A(A=x - b - v, L_km=L, **rain)
    return b, v, R


def cube(rows, layout, ids, chs):
    """rows[link][channel] -> data array in the layout."""
    a = np.array(rows)
    t = np.datetime64("2021-05-01", "ns") + np.arange(a.shape[2]) * np.timedelta64(60, "s")
    d = xr.DataArray(a, dims=("cml_id", "channel_id", "time"), coords={"cml_id": ids, "channel_id": chs, "time": t})
    return d.transpose(*[("cml_id", "channel_id", "time"), ("time", "cml_id", "channel_id"), ("channel_id", "time", "cml_id")][layout])


def labels(src, *rs):
    for r in rs:
        if not isinstance(r, xr.DataArray):
            continue
        if set(r.dims) != set(src.dims) or r.sizes != src.sizes or any(not np.array_equal(r[k].values, src[k].values) for k in src.coords):
            return False
    return True


def replay(c, job, ctx):
    sa, sb = c["a"], c["b"]
    h = sum((v % 9) * (i + 1) for i, v in enumerate(sa["x"] + sa["w"] + sb["x"]))
    T = len(sa["x"])
    kind = "schleiss" if c["schleiss"] else "none"
    m = []
    X = {k: decs(s["x"], U) for k, s in (("a", sa), ("b", sb))}
    W = {k: decs(s["w"]) for k, s in (("a", sa), ("b", sb))}
    want = {k: (decs(s["b"], U), decs(s["waa"], U), decs(s["R"]) / c["p" + k]["g"]) for k, s in (("a", sa), ("b", sb))}
    Ls = {"a": 4.0, "b": 16.0}
    off = [0.0, 55.0, -40.0][h % 3]
    try:
        lay = h % 4
        if lay == 3:
            got = {}
            for k in "ab":
                got[k] = [np.asarray(v) + np.zeros(T) for v in chain(X[k] + off, W[k], c["n"], kind, Ls[k], dict(a=.25, b=1.0), pos=h % 2)]
        else:
            rows = [[X["a"], X["b"]], [X["b"], X["a"]], [np.full(T, np.nan), X["a"]]]
            rw = [[W["a"], W["b"]], [W["b"], W["a"]], [W["b"], W["a"]]]
            ids = [["z", "x", "y"], ["l1", "l2", "l3"]][h % 2]
            x, w = cube(rows, lay, ids, ["c1", "c2"]) + off, cube(rw, lay, ids, ["c1", "c2"])
            Lx = xr.DataArray([[4.0, 16.0], [16.0, 4.0], [1.0, 4.0]], dims=("cml_id", "channel_id"), coords={"cml_id": ids, "channel_id": ["c1", "c2"]})
            if not np.isnan(W["a"]).any() and not np.isnan(W["b"]).any() and h % 5 < 2:
                w = w.astype(bool)
            r = chain(x, w, c["n"], kind, Lx, dict(a=.25, b=1.0), pos=h % 2)
            if not labels(x, *r):
                m.append("dimensions or labels changed")
            pick = lambda v, i, j: v.sel(cml_id=ids[i], channel_id=["c1", "c2"][j]).values if isinstance(v, xr.DataArray) else np.full(T, v)
            got = {"a": [pick(v, 0, 0) for v in r], "b": [pick(v, 0, 1) for v in r]}
            for (i, j), k in (((1, 0), "b"), ((1, 1), "a"), ((2, 1), "a")):
                if not all(same(pick(v, i, j), g) for v, g in zip(r, got[k])):
                    m.append(f"equal series at link {i} channel {j} have different results")
            if not np.isnan(pick(r[2], 2, 0)).all():
                m.append("rain rate of a missing series")
    except Exception as e:
        return [f"raised {exc_name(e)}: {str(e)[:200]}"]
    for k in "ab":
        for nm, g, wv in zip(("baseline", "wet antenna", "rain rate"), got[k], want[k]):
            if not same(g - (off if nm == "baseline" else 0), wv, rtol=1e-8, atol=1e-8):
                m.append(f"{nm} of series {k}: {np.asarray(g).tolist()}, expected {wv.tolist()}")
        if (got[k][2] < 0).any():
            m.append(f"negative rain rate in series {k}")
    return m


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        nl, nc = int(rng.randint(1, 4)), int(rng.randint(1, 3))
        T = big(it, int(rng.choice([2, 5, 12, 40, 120])), 500, 50)
        n = int(rng.randint(1, min(T, 6) + 1))
        kind = ["schleiss", "leijnse", "pastorek", "none"][rng.choice(4, p=[.4, .2, .2, .2])]
        x = np.round(rng.choice([50.0, 60, 71.5], (nl, nc, 1)) + rng.randint(0, 3, (nl, nc, T)) * .5, 2)
        w = np.zeros((nl, nc, T))
        for i in range(nl):
            for j in range(nc):
                ev = np.array(runs(rng, T, [0, 0, 1, 2, 8, 20], 4)) * 1.0
                x[i, j] += ev + np.round(rng.rand(T) * (ev > 0), 1)
                w[i, j] = np.where(rng.rand(T) < .1, rng.randint(0, 2, T), ev > 0)
        if rng.rand() < .6:
            x[rng.rand(nl, nc, T) < .08] = np.nan
        if rng.rand() < .5:
            w[rng.rand(nl, nc, T) < .05] = np.nan
        ids, chs = [f"l{i}" for i in rng.permutation(9)[:nl]], [f"c{j + 1}" for j in range(nc)]
        lay = int(rng.randint(3))
        dx, dw = cube(x, lay, ids, chs), cube(w, lay, ids, chs)
        if not np.isnan(w).any() and rng.rand() < .5:
            dw = dw.astype([bool, int][rng.randint(2)])
        co = {"cml_id": ids, "channel_id": chs}
        L = np.round(1 + 15 * rng.rand(nl), 2)
        f = np.round(rng.choice([10.0, 18.7, 23.2, 38.9], (nl, nc)), 1)
        pol = rng.choice(["V", "H"], (nl, nc))
        dL = xr.DataArray(L, dims="cml_id", coords={"cml_id": ids})
        df, dp = (xr.DataArray(v, dims=("cml_id", "channel_id"), coords=co) for v in (f, pol))
        wp = (float(rng.choice([2.2, 1.0, 4.0])), 1.0, float(rng.choice([15, 6, 3])))
        rmin = float(rng.choice([.1, .1, .5, .02]))
        fl = rng.rand() < .7
        e = {"labels": True, "alone": [], "series": [], "exc": ""}
        progress({"x": encs(x, 1000), "w": encs(w), "n": n, "kind": kind, "shape": [nl, nc, T]})
        try:
            rain = dict(f_GHz=df, pol=dp, R_min=rmin) if fl else dict(a=.1, b=1.05, R_min=rmin)
            b, v, R = chain(dx, dw, n, kind, dL, rain, df, dp, wp)
            e["labels"] = labels(dx, b, v, R)
            if not isinstance(v, xr.DataArray):
                v = dx * 0 + v
                v = v.fillna(0)
            for i in range(nl):
                for j in range(nc):
                    s = dict(cml_id=ids[i], channel_id=chs[j])
                    vb, vv, vR = (np.asarray(q.sel(s).values, dtype=float) for q in (b, v, R))
                    rain1 = dict(f_GHz=f[i, j], pol=str(pol[i, j]), R_min=rmin) if fl else rain
                    alone = chain(x[i, j], w[i, j], n, kind, L[i], rain1, f[i, j], str(pol[i, j]), wp)
                    if not all(same(p + 0 * x[i, j] * 0 if np.ndim(p) == 0 else p, q, rtol=1e-7, atol=1e-9) for p, q in zip(alone, (vb, vv, vR)) if np.ndim(p)):
                        e["alone"].append([i, j])
                    sc = 6000  # exact for means of up to 6 values in 0.001 dB is not needed: tolerance of C01
                    e["series"].append({"x": rnds(x[i, j], sc), "w": encs(w[i, j]), "n": n, "b": rnds(vb, sc), "waa": rnds(vv, sc), "R": rnds(vR, 1e5),
                                        "kind": kind if kind in ("schleiss", "none") else "inverse", "wmax": rnd(wp[0], sc), "p": int(3 * wp[1]), "q": int(wp[2])})
        except Exception as ex:
            e["exc"] = exc_name(ex)
        yield e
