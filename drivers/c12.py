import numpy as np
from venc import *
from pycomlink.spatial.idw import Invdisttree


def replay(c, job, ctx):
    st = c["st"]
    h = sum((i + 1) * (s[0] * 3 + s[1] + (s[2] % 7)) for i, s in enumerate(st)) + c["p"] + c["nnear"]
    sc = [1.0, 0.125, 1024.0, 2.0**-30, 2.0**24][h % 5]
    off = np.array([[0.0, 0.0], [-5.0, 3.0], [256.0, -1024.0]][(h // 3) % 3]) * sc
    order = np.arange(len(st)) if (h // 9) % 2 else np.arange(len(st))[::-1]
    X = np.array([s[:2] for s in st], dtype=float)[order] * sc + off
    z = decs([s[2] for s in st])[order]
    if (h // 18) % 3 == 0 and not np.isnan(z).any():
        z = z.astype(int)
    X = [X, X.tolist(), list(zip(X[:, 0], X[:, 1]))][(h // 2) % 3]
    maxd = None if c["maxd2"] == NAN else float(np.sqrt(c["maxd2"])) * sc
    q = np.array([0.0, 0.0]) + off
    try:
        tree = Invdisttree(X)
        kw = dict(nnear=c["nnear"], p=c["p"])
        if maxd is not None:
            kw["max_distance"] = maxd
        if h % 2:
            # one point of a batch of points
            qq = np.stack([q + 3.5 * sc, q, q + [0, 1e4 * sc]])
            r = tree(qq, z, **kw)
            if np.shape(r) != (3,):
                return [f"shape {np.shape(r)}"]
            if maxd is not None and not np.isnan(r[2]):
                return ["value without a station in range"]
            v = r[1]
        else:
            v = tree(q, z, **kw)
            if np.shape(v) != ():
                return [f"shape {np.shape(v)}"]
    except Exception as e:
        return [f"raised {exc_name(e)}: {str(e)[:200]}"]
    for num, den in c["res"]:
        if num == NAN:
            if np.isnan(v):
                return []
        elif not np.isnan(v) and abs(v * den - num) <= 1e-9 * max(abs(num), den):
            if den == 1 and v != num:
                continue
            return []
    return [f"{v} is not one of {c['res']}"]


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        n = big(it, int(rng.choice([1, 2, 3, 5, 8, 12])), int(rng.choice([30, 150])), 50)
        m = big(it, int(rng.choice([2, 4, 10, 40])), 40, 50)
        xy = rng.randint(-m, m + 1, (n, 2))
        nq = big(it, int(rng.choice([1, 2, 4])), 30, 50)
        q = rng.randint(-m, m + 1, (nq, 2))
        if rng.rand() < .3:
            q[0] = xy[rng.randint(n)]
        z = rng.randint(-5, 6, n).astype(float)
        if rng.rand() < .25:
            z[rng.randint(n)] = np.nan
        nnear = int(rng.choice([2, 3, 4, 6, 8, 20]))
        p = [0.5, 1, 1.5, 2, 2.0, 3, 4][rng.randint(7)]
        dflt = rng.rand() < .2
        if dflt:
            nnear, p = 6, 1
        maxd2 = NAN if rng.rand() < .4 else int(rng.choice([1, 5, 17, 50, 500]))
        sc = float(rng.choice([1, 0.25, 3.7, 1e3, 1e-3, 1e-8, 1e7]))
        off = rng.uniform(-10, 10, 2) * sc if rng.rand() < .5 else np.zeros(2)
        d = np.sqrt(((q[:, None, :] - xy[None]) ** 2).sum(-1).astype(float))
        w = []
        for k in range(nq):
            pos = d[k][d[k] > 0]
            w.append([int(round(1e4 * (pos.min() / x) ** p)) if x > 0 else 0 for x in d[k]])
        S = 4000
        lim = min(5, int(2.1e9 / (min(n, nnear) * 1e4 * S)))  # 32 bit integers in the specification
        z = np.clip(z, -lim, lim)
        e = {"st": [[int(a), int(b), enc(v)] for (a, b), v in zip(xy, z)], "q": q.tolist(), "nnear": nnear, "p": p,
             "maxd2": maxd2, "w": w, "S": S, "tol": int(min(n, nnear) * 10 * .5 / 1e4 * S) + 3, "out": [], "exc": ""}
        progress(e)
        kw = {} if dflt else dict(nnear=nnear, p=p)
        if maxd2 != NAN:
            # a station exactly at the maximum distance may count or not
            kw["max_distance"] = float(np.sqrt(maxd2)) * sc
        try:
            X = xy * sc + off
            Q = q * sc + off
            tree = Invdisttree(X)
            if rng.rand() < .2:
                out = [tree(x, z, **kw) for x in Q]
            else:
                out = tree(Q, z, **kw)
            e["out"] = rnds(out, S)
        except Exception as ex:
            e["exc"] = exc_name(ex)
            e["msg"] = str(ex)[:200]
        yield e
