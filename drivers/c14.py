import numpy as np
import pandas as pd
import xarray as xr
from venc import *
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator, OrdinaryKrigingInterpolator


def ok(v, wants):
    for num, den in wants:
        if num == NAN:
            if np.isnan(v):
                return True
        elif not np.isnan(v) and abs(v * den - num) <= 1e-9 * max(abs(num), den):
            return True
    return False


def wrap(h, *a):
    k = h % 3
    if k == 0:
        return a
    if k == 1:
        return tuple(pd.Series(v) for v in a)
    return tuple(xr.DataArray(v, dims="s") for v in a)


def replay(c, job, ctx):
    st = np.array([s[:2] for s in c["st"]], dtype=float)
    z = decs([s[2] for s in c["st"]])
    h = sum((i + 1) * (s[0] + 2 * s[1] + s[2] % 7) for i, s in enumerate(c["st"])) + c["g"]
    maxd = None if c["maxd2"] == NAN else float(np.sqrt(c["maxd2"]))
    G = np.array(c["grid"], dtype=float)
    xg, yg = G[:, :, 0], G[:, :, 1]
    x, y, zz = wrap(h, st[:, 0], st[:, 1], z)
    try:
        it = IdwKdtreeInterpolator(nnear=c["nnear"], p=2, exclude_nan=c["excl"], max_distance=maxd)
        if c["g"] == 0:
            r = it(x, y, zz, resolution=float(c["r"]) if h % 2 else c["r"])
        else:
            gx, gy = layout(h // 2, *[v.astype([float, int, "int16"][h % 3]) for v in (xg, yg)])
            r = it(x, y, zz, xgrid=gx, ygrid=gy)
    except Exception as e:
        return [f"raised {exc_name(e)}: {str(e)[:200]}"]
    r = np.asarray(r)
    if r.shape != xg.shape:
        return [f"shape {r.shape} instead of {xg.shape}"]
    bad = [(i, j, float(r[i, j])) for i in range(r.shape[0]) for j in range(r.shape[1]) if not ok(r[i, j], c["res"][i][j])]
    return [f"grid points (row, column, value): {bad}"] if bad else []


def gamma(model, sill, rang, nug, d):
    """Variogram; 0 at distance 0 (the kriged value is the station's value there)."""
    ps = sill - nug
    if model == "spherical":
        t = np.minimum(d / rang, 1)
        g = ps * (1.5 * t - .5 * t**3)
    elif model == "exponential":
        g = ps * (1 - np.exp(-3 * d / rang))
    else:  # gaussian
        g = ps * (1 - np.exp(-((7 * d / (4 * rang)) ** 2)))
    return np.where(d > 1e-9, g + nug, 0)


def certificate(xy, z, q, model, sill, rang, nug, closest):
    """Solution of the ordinary kriging system at q: used stations, variogram values, weights, multiplier."""
    d = np.hypot(*(xy - q).T)
    u = np.where(~np.isnan(z))[0]
    u = u[np.argsort(d[u], kind="stable")][: closest or None]
    D = np.hypot(xy[u, 0][:, None] - xy[u, 0], xy[u, 1][:, None] - xy[u, 1])
    G, g = gamma(model, sill, rang, nug, D), gamma(model, sill, rang, nug, d[u])
    n = len(u)
    A = np.block([[G, np.ones((n, 1))], [np.ones((1, n)), np.zeros((1, 1))]])
    s = np.linalg.solve(A, np.append(g, 1))
    return {"G": [rnds(r, 1e3) for r in G], "g": rnds(g, 1e3), "lam": rnds(s[:-1], 1e4), "mu": rnd(s[-1], 1e3), "z": rnds(z[u], 1e3)}


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        kind = ["idw", "idw", "grid", "krig", "reject"][it % 5]
        h = int(rng.randint(3))
        n = big(it, int(rng.choice([1, 2, 4, 8, 12])), 60, 53)
        m = big(it, 12, 40, 53)
        xy = rng.randint(-m, m + 1, (n, 2))
        z = rng.randint(-5, 6, n).astype(float)
        if rng.rand() < .5:
            z[rng.rand(n) < rng.choice([.2, .6, 1.])] = np.nan
        sc = float(rng.choice([1, 0.01, 250.0]))
        if kind == "idw":
            shp = [(1, 4), (4, 1), (2, 3), (3, 2), (1, 1)][rng.randint(5)]
            q = rng.randint(-m, m + 1, (shp[0] * shp[1], 2))
            nnear = int(rng.choice([2, 3, 8]))
            p = float(rng.choice([1, 2, 3]))
            if rng.rand() < .3:
                nnear, p = 8, 2
                obj = dict()
            else:
                obj = dict(nnear=nnear, p=p)
            maxd2 = NAN
            if rng.rand() < .4:
                maxd2 = int(rng.choice([10, 100]))
                obj["max_distance"] = float(np.sqrt(maxd2)) * sc
            pres = ~np.isnan(z)
            d = np.sqrt(((q[:, None, :] - xy[None][:, pres]) ** 2).sum(-1).astype(float))
            w = []
            for k in range(len(q)):
                pos = d[k][d[k] > 0]
                w.append([int(round(1e4 * (pos.min() / v) ** p)) if v > 0 else 0 for v in d[k]])
            S = 4000
            e = {"k": "idw", "st": [[int(a), int(b), enc(v)] for (a, b), v in zip(xy, z)], "q": q.tolist(), "nnear": nnear, "p": p,
                 "maxd2": maxd2, "w": w, "S": S, "tol": int(n * 10 * .5 / 1e4 * S) + 3, "out": [], "shape": [], "wantshape": list(shp), "exc": ""}
            progress(e)
            try:
                gx, gy = layout(int(rng.randint(5)), *[(v if sc == 1 and it % 2 else v * sc).reshape(shp) for v in q.T])
                r = IdwKdtreeInterpolator(**obj)(*wrap(h, xy[:, 0] * sc, xy[:, 1] * sc, z),
                                                 xgrid=gx, ygrid=gy)
                e["shape"] = list(np.shape(r))
                e["out"] = rnds(r, S)
            except Exception as ex:
                e["exc"] = exc_name(ex)
                e["msg"] = str(ex)[:200]
            yield e
        elif kind == "grid":
            x, y = rng.uniform(-5, 5, n), rng.uniform(-2, 3, n) + 100
            res = float(rng.choice([0.3, 0.5, 1, 2.7]))
            e = {"k": "grid", "axes": [], "mesh": True, "shapeok": True, "exc": "", "xy": [x.tolist(), y.tolist()], "res": res}
            progress(e)
            try:
                o = IdwKdtreeInterpolator()
                r = o(*wrap(h, x, y, rng.uniform(0, 1, n)), resolution=res)
                X, Y = np.asarray(o.xgrid), np.asarray(o.ygrid)
                e["shapeok"] = np.shape(r) == X.shape == Y.shape
                e["mesh"] = bool((X == X[:1]).all() and (Y == Y[:, :1]).all())
                s = 1e5
                for v, c in ((X[0], x), (Y[:, 0], y)):
                    e["axes"].append({"v": rnds(v, s), "lo": rnd(c.min(), s), "hi": rnd(c.max(), s), "r": rnd(res, s)})
            except Exception as ex:
                e["exc"] = exc_name(ex)
                e["msg"] = str(ex)[:200]
            yield e
        elif kind == "reject":
            e = {"k": "reject", "exc": ""}
            g = rng.uniform(0, 1, (2, 2))
            kw = [{}, {"xgrid": g}, {"ygrid": g}][rng.randint(3)]
            o = [IdwKdtreeInterpolator, OrdinaryKrigingInterpolator][rng.randint(2)]()
            try:
                o(rng.uniform(0, 1, 5), rng.uniform(0, 1, 5), rng.uniform(0, 1, 5), **kw)
            except Exception as ex:
                e["exc"] = exc_name(ex)
            yield e
        else:
            n = int(rng.choice([4, 6, 12, 28], p=[.3, .3, .3, .1]))
            xy = np.array([[i % 7, i // 7] for i in rng.permutation(35)[:n]], dtype=float) + rng.uniform(-.2, .2, (n, 2))
            const = float(rng.choice([2.5, 7])) if rng.rand() < .3 else np.nan
            z = rng.uniform(0, 10, n) if np.isnan(const) else np.full(n, const)
            miss = rng.rand(n) < rng.choice([0, .3])
            if miss.sum() > n - 3:
                miss[:] = False
            allnan = rng.rand() < .1
            if allnan:
                miss[:] = True
            z = np.where(miss, np.nan, z)
            # grid: stations and other points, in random order
            pts = np.concatenate([xy, rng.uniform(0, 6, (4, 2))])
            o = rng.permutation(len(pts))
            at = [int(np.where(o == i)[0][0]) + 1 for i in range(n)]
            shp = (2, len(pts) // 2) if rng.rand() < .5 else (len(pts), 1)
            G = pts[o]
            nug = 0.0 if rng.rand() < .7 else .3
            vm, vp = str(rng.choice(["spherical", "exponential", "gaussian"])), {"sill": 1.0 + nug, "range": float(rng.choice([3.0, 8.0])), "nugget": nug}
            if vm == "gaussian":
                vp["range"] = 3.0  # well conditioned
            kw = dict(nlags=6, variogram_model=vm, variogram_parameters=vp, backend=str(rng.choice(["C", "vectorized"])))
            if rng.rand() < .2:  # all default values
                vm, vp, kw, nug = "spherical", {"sill": .9, "range": 1, "nugget": .1}, {}, .1
                xy, G = xy / 4, G / 4
            if rng.rand() < .3 and (~miss).sum() >= 4:
                kw["n_closest_points"] = 3
                kw["backend"] = "C"
            S = 1e5
            cert = [] if allnan else [certificate(xy, z, p, vm, vp["sill"], vp["range"], vp["nugget"], kw.get("n_closest_points")) for p in G]
            e = {"k": "krig", "cert": cert, "z": rnds(z, S), "at": at if nug == 0 else [0] * n, "const": rnd(const, S) if not allnan else NAN, "out": [], "without": [],
                 "shape": [], "wantshape": list(shp), "tol": 30, "allnan": bool(allnan), "exc": "", "par": {k: str(v) for k, v in kw.items()}}
            progress(e)
            try:
                xg, yg = layout(int(rng.randint(5)), G[:, 0].reshape(shp), G[:, 1].reshape(shp))
                r = OrdinaryKrigingInterpolator(**kw)(*wrap(h, xy[:, 0], xy[:, 1], z), xgrid=xg, ygrid=yg)
                e["shape"] = list(np.shape(r))
                e["out"] = rnds(r, S)
                if miss.any() and not allnan:
                    k = ~miss
                    e["without"] = rnds(OrdinaryKrigingInterpolator(**kw)(xy[k, 0], xy[k, 1], z[k], xgrid=xg, ygrid=yg), S)
                else:
                    e["without"] = e["out"]
            except Exception as ex:
                e["exc"] = exc_name(ex)
                e["msg"] = str(ex)[:200]
            yield e
