import numpy as np
from venc import *
from pycomlink.processing.min_max import _calc_A_min_max


def replay(c, job, ctx):
    S = 4
    rmin, rmax = decs(c["rmin"], S), decs(c["rmax"], S)
    tx = np.full(len(rmin), c["tx"] / S)
    exp = decs(c["out"], S)
    msgs = []
    for gT, gR in ((1.0, 0.5), (0.25, 1.25)):
        try:
            out = _calc_A_min_max(tx, tx.copy(), rmin, rmax, gT, gR, window=c["window"])
        except Exception as e:
            msgs.append(f"raised {exc_name(e)}")
            continue
        if not same(out, exp):
            msgs.append(f"attenuation differs from specification: {np.asarray(out).tolist()}")
    return msgs


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        L = big(it, int(rng.choice([1, 2, 5, 8, 12, 40, 150])), 1200)
        dflt = rng.rand() < 0.3
        miss = rng.rand() < 0.5
        if dflt and not miss:
            S, gT, gR, window, kw = 10, 1.0, 0.6, 7, {}
        else:
            S, window = 4, int(rng.choice([0, 1, 2, 3, 7, 10, 24]))
            gT, gR = float(rng.choice([0, 0.5, 1, 2])), float(rng.choice([0, 0.5, 1.5]))
            kw = {"gT": gT, "gR": gR, "window": window}
            if rng.rand() < 0.2:  # symmetric biases combine
                kw = {"gR": gR, "window": window, "gT": gT}
        base = rng.randint(-280, -160) + np.cumsum(rng.randint(-6, 7, L))
        rmax = base / S
        rmin = (base - rng.randint(0, 40, L)) / S
        tmin = rng.randint(40, 60, L) / S
        tmax = tmin + rng.randint(0, 8, L) / S
        if rng.rand() < 0.5:
            tmin = np.full(L, 12.0)
            tmax = tmin.copy()
        arrs = [tmin, tmax, rmin, rmax]
        if miss:
            for k in rng.choice(4, rng.randint(1, 4), replace=False):
                arrs[k][rng.rand(L) < rng.choice([0.1, 0.5])] = np.nan
            if rng.rand() < 0.03:
                arrs[rng.randint(4)][:] = np.nan
        e = {n: encs(v, S) for n, v in zip(("txmin", "txmax", "rxmin", "rxmax"), arrs)}
        e.update(bias=enc((gT + gR) / 2, S), window=window, scale=S, out=[], exc="")
        progress(e)
        try:
            e["out"] = encs(_calc_A_min_max(*arrs, **kw), S)
        except Exception as ex:
            e["exc"] = exc_name(ex)
        yield e
