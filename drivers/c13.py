import numpy as np
from venc import *
from pycomlink.spatial.idw import Invdisttree
from pycomlink.spatial.interpolator import IdwKdtreeInterpolator, OrdinaryKrigingInterpolator


def put(old, new, inplace):
    """The new content, written into the old array if asked for and possible."""
    new = np.array(new, dtype=float)
    if inplace and old is not None and old.shape == new.shape:
        old[...] = new
        return old
    return new


def ok(v, wants):
    for num, den in wants:
        if num == NAN:
            if np.isnan(v):
                return True
        elif not np.isnan(v) and abs(v * den - num) <= 1e-9 * max(abs(num), den):
            return True
    return False


def replay(c, job, ctx):
    obj = None
    A = {}
    got = []
    try:
        for k in c["calls"]:
            ip = k["inplace"]
            st = np.array(k["st"], dtype=float)
            z = A["z"] = put(A.get("z"), decs(k["z"]), ip)
            q = np.array(k["q"], dtype=float)
            maxd = None if k["maxd2"] == NAN else float(np.sqrt(k["maxd2"]))
            if c["kind"] == "tree":
                if obj is None:
                    obj = Invdisttree(st)
                    st[...] = 7e5  # of no importance any more
                A["q"] = put(A.get("q"), q, ip)
                got.append((obj(A["q"], z, nnear=k["nnear"], p=k["p"], max_distance=maxd), k["want"]))
            else:
                A["x"], A["y"] = put(A.get("x"), st[:, 0], ip), put(A.get("y"), st[:, 1], ip)
                A["xg"], A["yg"] = put(A.get("xg"), q[None, :, 0], ip), put(A.get("yg"), q[None, :, 1], ip)
                if obj is None:
                    obj = IdwKdtreeInterpolator(nnear=k["nnear"], p=k["p"], max_distance=maxd)
                else:
                    obj.nnear, obj.p, obj.max_distance = k["nnear"], k["p"], maxd
                r = obj(A["x"], A["y"], z, xgrid=A["xg"], ygrid=A["yg"])
                if np.shape(r) != A["xg"].shape:
                    return [f"shape {np.shape(r)}"]
                got.append((r, k["want"]))
            r = np.ravel(got[-1][0])
            if len(r) != len(k["want"]) or not all(ok(v, w) for v, w in zip(r, k["want"])):
                return [f"call {len(got)}: {r.tolist()} instead of {k['want']}"]
    except Exception as e:
        return [f"call {len(got) + 1} raised {exc_name(e)}: {str(e)[:200]}"]
    # earlier results must not be touched by later calls
    for i, (r, w) in enumerate(got):
        if not all(ok(v, x) for v, x in zip(np.ravel(r), w)):
            return [f"result of call {i + 1} changed afterwards"]
    return []


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        kind = ["tree", "interp", "interp", "krig"][it % 4]
        ncalls = int(rng.choice([2, 3, 6, 12]))
        n = big(it, int(rng.choice([3, 4, 8, 20])), 60, 50)
        state = dict(x=rng.uniform(0, 10, n), y=rng.uniform(0, 10, n), z=rng.uniform(0, 20, n),
                     xg=rng.uniform(0, 10, (2, 3)), yg=rng.uniform(0, 10, (2, 3)), res=None,
                     nnear=3, p=2.0, maxd=None)
        obj = None
        steps = []
        e = {"kind": kind, "n": ncalls, "steps": steps, "same": [], "exc": ""}
        A = {}
        kept = []
        excl = {} if rng.rand() < .7 else {"exclude_nan": False}
        try:
            for c in range(ncalls):
                ip = bool(rng.rand() < .5)
                ch = []
                for f in ("x", "y", "z", "xg", "yg"):
                    if kind == "tree" and f in "xy":
                        continue
                    if rng.rand() < .25:
                        v = state[f].copy()
                        i = tuple(rng.randint(s) for s in v.shape)
                        v[i] = v[i] + rng.choice([1e-7, .5, -2]) if not np.isnan(v[i]) else 3.0
                        state[f] = v
                        ch.append(f)
                if rng.rand() < .2 and kind != "tree":  # stations in another order, with or without their values
                    o = rng.permutation(n)
                    for f in ("x", "y", "z")[:2 + rng.randint(2)]:
                        state[f] = state[f][o]
                    ch.append("order")
                if rng.rand() < .25 and kind != "tree":
                    v = state["z"].copy()
                    v[rng.rand(n) < .3] = np.nan
                    if np.isnan(v).all() or kind == "krig" and (~np.isnan(v)).sum() < 3:
                        v = rng.uniform(0, 20, n)
                    state["z"] = v
                    ch.append("nan")
                if rng.rand() < .15:
                    m = int(rng.choice([1, 2, 4]))
                    state["xg"], state["yg"] = rng.uniform(0, 10, (m, 3)), rng.uniform(0, 10, (m, 3))
                    ch.append("grid")
                if rng.rand() < .1 and kind != "tree":
                    state["res"] = [None, 1.0, 2.5][rng.randint(3)]
                    ch.append("resolution")
                for f, opt in (("nnear", [2, 3, 8, 50]), ("p", [1.0, 2.0, 3]), ("maxd", [None, 2.0, 4.0])):
                    if rng.rand() < .2:
                        state[f] = opt[rng.randint(len(opt))]
                        ch.append(f)
                steps.append({"changed": ch, "inplace": ip})
                progress(e)
                for f in ("x", "y", "z", "xg", "yg"):
                    A[f] = put(A.get(f), state[f], ip)
                fresh = {f: np.array(state[f]) for f in ("x", "y", "z", "xg", "yg")}
                if kind == "tree":
                    def run(o, B):
                        return o(np.stack([B["xg"].ravel(), B["yg"].ravel()], 1), B["z"], nnear=state["nnear"], p=state["p"], max_distance=state["maxd"])
                    if obj is None:
                        X = np.stack([state["x"], state["y"]], 1)
                        obj = Invdisttree(X)
                    elif rng.rand() < .3:
                        X[rng.randint(n)] += rng.uniform(-5, 5, 2)
                    new = Invdisttree(np.stack([state["x"], state["y"]], 1))
                else:
                    def run(o, B):
                        g = dict(xgrid=B["xg"], ygrid=B["yg"]) if state["res"] is None else dict(resolution=state["res"])
                        return o(B["x"], B["y"], B["z"], **g)
                    if kind == "krig":
                        kw = dict(nlags=8, variogram_parameters={"sill": 1.0, "range": 4.0, "nugget": 0.0},
                                  n_closest_points=None, backend="vectorized")
                        if obj is None:
                            obj = OrdinaryKrigingInterpolator(**kw)
                        new = OrdinaryKrigingInterpolator(**kw)
                    else:
                        if obj is None:
                            obj = IdwKdtreeInterpolator(**excl)
                        obj.nnear, obj.p, obj.max_distance = state["nnear"], state["p"], state["maxd"]
                        new = IdwKdtreeInterpolator(nnear=state["nnear"], p=state["p"], max_distance=state["maxd"], **excl)
                r = run(obj, A)
                w = run(new, fresh)
                kept.append((r, w.copy()))
                e["same"].append(bool(same(r, w, rtol=1e-12, atol=1e-12)))
            for i, (r, w) in enumerate(kept):
                e["same"][i] = e["same"][i] and bool(same(r, w, rtol=1e-12, atol=1e-12))
        except Exception as ex:
            e["exc"] = exc_name(ex)
            e["msg"] = str(ex)[:300]
        yield e
