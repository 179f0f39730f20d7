import itertools
import numpy as np
import pandas as pd
import xarray as xr
from venc import *
from pycomlink.processing.k_R_relation import calc_R_from_A, calc_R_from_A_min_max, a_b

EULER = 0.57721566
UNIT = 16.0
BEXP = {1: 1.0, 2: 2.0, 3: 0.5}


def unit(r):
    return 16.0


def replay(c, job, ctx):
    if c["kind"] == "args":
        return args_case(c)
    # unit of R is 1; of A is 1/16 (power of two, exact)
    A = decs(c["A"], 16.0)
    exp = decs(c["out"])
    b = BEXP[c["b"]]
    msgs = []
    for aa, L in ((c["g"] / 16.0 / 2.0, 2.0), (c["g"] / 4.0, 0.25)):
        rmin = float(c["rmin"])
        calls = [
            ("array", lambda: calc_R_from_A(A, L, a=aa, b=b, R_min=rmin)),
            ("kw", lambda: calc_R_from_A(L_km=L, b=b, a=aa, A=list(A), R_min=rmin)),
            ("per value", lambda: calc_R_from_A(A, L, a=np.full(len(A), aa), b=np.full(len(A), b), R_min=rmin)),
        ]
        if L == 2.0:
            calls.append(("2-D", lambda: calc_R_from_A(np.stack([A, A[::-1]]), L, a=aa, b=b, R_min=rmin)[0]))
            calls.append(("scalars", lambda: np.concatenate([calc_R_from_A(v, L, a=aa, b=b, R_min=rmin) for v in A])))
        else:
            da = xr.DataArray(np.stack([A, A[::-1]], axis=1), dims=("time", "cml_id"))
            Ls = xr.DataArray([2 * L, L], dims="cml_id")
            calls.append(("DataArray", lambda: calc_R_from_A(da, Ls, a=aa, b=b, R_min=rmin).isel(cml_id=1).values[::-1]))
        if rmin == 0:
            calls.append(("R_min=0 int", lambda: calc_R_from_A(A, L, None, None, aa, b, R_min=0)))
        # min/max variant: same law with a*(ln k + 0.577..)**b, k chosen such that the factor is known
        k = 90
        am = aa / (np.log(k) + EULER) ** b
        calls.append(("min/max", lambda: calc_R_from_A_min_max(A, L, a=am, b=b, R_min=rmin - 1e-9 * (rmin > 0), k=k)))
        for name, fn in calls:
            try:
                out = np.asarray(fn())
            except Exception as e:
                msgs.append(f"raised {exc_name(e)}: {e} ({name})")
                continue
            if not same(out, exp, rtol=1e-9):
                msgs.append(f"rain rate differs from specification ({name}, a={aa}, L={L}): {out.tolist()}")
    return msgs


def args_case(c):
    msgs = []
    combos = [
        dict(f_GHz=20.0, pol="V", a=0.1, b=1.0),
        dict(f_GHz=np.array([20.0, 30.0]), pol=np.array(["V", "H"]), a=np.array([0.1, 0.2]), b=np.array([1.0, 1.1])),
        dict(f_GHz=18, pol="h", a=0.0, b=1.0),
    ]
    for full in combos:
        kw = {k: v for k, v in full.items() if c[{"f_GHz": "f", "pol": "pol", "a": "a", "b": "b"}[k]]}
        for A in (np.array([1.0, 2.0]), xr.DataArray([[1.0], [2.0]], dims=("cml_id", "time"))):
            if isinstance(A, xr.DataArray):
                kw = {k: (xr.DataArray(v, dims="cml_id") if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
            try:
                calc_R_from_A(A, 5.0, **kw)
                ex = ""
            except Exception as e:
                ex = exc_name(e)
            if c["ok"] and ex:
                msgs.append(f"accepted combination raised {ex}: {sorted(kw)}")
            if not c["ok"] and ex != "ValueError":
                msgs.append(f"combination {sorted(kw)} not rejected with ValueError ({ex or 'accepted'})")
    return msgs


POLS = ["H", "V", "h", "v", "horizontal", "vertical", "Horizontal", "Vertical"]


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        u = rng.rand()
        L = big(it, int(rng.choice([1, 2, 5, 20, 100])), 1500)
        size = rng.choice([2e-6, 0.05, 1, 10, 60])
        A = np.round(np.abs(rng.normal(0, size, L)), 4 if size > 0.01 else 9)
        A[rng.rand(L) < 0.15] *= -1
        A[rng.rand(L) < 0.1] = 0
        if rng.rand() < 0.5:
            A[rng.rand(L) < 0.2] = np.nan
        Lkm = float(np.round(rng.choice([0.1, 0.7, 3.3, 12, 60.5]), 3))
        R_min = float(rng.choice([0.1, 0, 0.5, 2])) if size > 0.01 else 0.0  # no smallest rain rate: tiny values count
        a = float(np.round(rng.uniform(0.001, 1.4), 4))
        b = float(np.round(rng.uniform(0.65, 1.4), 4))
        f = float(np.round(rng.uniform(1, 100), 2))
        pol = POLS[rng.randint(8)]
        appr = ["ITU_2005", "ITU_2003"][rng.randint(2)]
        kw = {} if R_min == 0.1 else {"R_min": R_min}
        e = {"k": "law", "exc": "", "shape": True, "A": [], "R": [], "fwd": [], "amin": [], "rmin": 0}
        av, bv, Lv = a, b, Lkm
        form = int(rng.randint(9))
        try:
            if u < 0.1:  # equal results of (f, pol) and (a, b)
                e = {"k": "equal", "exc": "", "r1": [], "r2": []}
                akw = {} if appr == "ITU_2005" else {"a_b_approximation": appr}
                progress({**e, "A": A.tolist(), "f": f, "pol": pol})
                r1 = calc_R_from_A(A, Lkm, f_GHz=f, pol=pol, **akw, **kw)
                x, y = a_b(f, pol, **({} if not akw else {"approx_type": appr}))
                r2 = calc_R_from_A(A, Lkm, a=x, b=y, **kw)
                s = autoscale(r1, r2)
                e["r1"], e["r2"] = rnds(r1, s), rnds(r2, s)
                yield e
                continue
            progress({**e, "A": A.tolist(), "form": form, "a": a, "b": b, "f": f, "pol": pol, "L": Lkm, "R_min": R_min})
            if form == 0:
                R = calc_R_from_A(A, Lkm, a=a, b=b, **kw)
            elif form == 1:
                R = calc_R_from_A(A, Lkm, f, pol, a_b_approximation=appr, **kw)
                av, bv = a_b(f, pol, appr)
            elif form == 2:  # per value frequency and polarization
                fs = np.round(rng.uniform(1, 100, L), 2)
                ps = np.array([POLS[i] for i in rng.randint(8, size=L)])
                R = calc_R_from_A(A, Lkm, f_GHz=fs, pol=ps, **kw)
                av, bv = a_b(fs, ps)
            elif form == 3:  # per value frequency, one polarization
                fs = np.round(rng.uniform(1, 100, L), 2)
                R = calc_R_from_A(A, Lkm, f_GHz=fs, pol=pol, **kw)
                av, bv = a_b(fs, pol)
            elif form == 4:  # integers
                A = np.round(np.where(np.isnan(A), 3, A))
                R = calc_R_from_A(A.astype(int), Lkm, a=a, b=b, **kw)
            elif form == 5:  # DataArray, parameters per link
                n = 3
                A = np.stack([np.roll(A, i) for i in range(n)])
                Ls = np.array([Lkm, 2 * Lkm, 0.5 * Lkm])
                fs = np.round(rng.uniform(1, 100, n), 2)
                ps = np.array([POLS[i] for i in rng.randint(8, size=n)])
                da = xr.DataArray(A, dims=("cml_id", "time"), coords={"cml_id": list("xyz"), "time": np.arange(A.shape[1])})
                par = [xr.DataArray(v, dims="cml_id", coords={"cml_id": list("xyz")}) for v in (Ls, fs, ps)]
                if rng.rand() < 0.5:
                    da = da.transpose("time", "cml_id")
                if rng.rand() < 0.5:  # links in a different order are matched by label
                    par = [v.isel(cml_id=[2, 0, 1]) for v in par]
                    da = da.isel(cml_id=[2, 0, 1])
                    A, Ls, fs, ps = A[[2, 0, 1]], Ls[[2, 0, 1]], fs[[2, 0, 1]], ps[[2, 0, 1]]
                R = calc_R_from_A(da, par[0], f_GHz=par[1], pol=par[2], **kw)
                e["shape"] = R.dims[-1] == "time" and list(R.cml_id.values) == list(da.cml_id.values)
                R = R.transpose("cml_id", "time").values
                av, bv = a_b(fs, ps)
                av, bv, Lv = av[:, None], bv[:, None], Ls[:, None]
            elif form == 6:  # 2-D array
                A = np.stack([A, A[::-1]])
                R = calc_R_from_A(A, Lkm, a=a, b=b, **kw)
            elif form == 7:
                k = int(rng.choice([1, 2, 90, 900]))
                kk = {} if k == 90 else {"k": k}
                R = calc_R_from_A_min_max(A, Lkm, a=a, b=b, **kk, **kw)
                av = a * (np.log(k) + EULER) ** b
            else:
                pp = pol[0]
                pk = {} if pp == "H" else {"pol": pp}
                R = calc_R_from_A_min_max(list(A), Lkm, f_GHz=f, **pk, **kw)
                av, bv = a_b(f, pp)
                av = av * (np.log(90) + EULER) ** bv
            R = np.asarray(R, dtype=float)
            e["shape"] = e["shape"] and R.shape == A.shape
            fwd = av * np.where(R > 0, R, 0) ** bv * Lv
            amin = np.broadcast_to(av * R_min**bv * Lv, A.shape)
            s = autoscale(A, np.where(np.isfinite(fwd), fwd, 0), amin)
            s2 = autoscale(R)
            e.update(A=rnds(A, s), fwd=rnds(fwd, s), amin=rnds(amin, s), R=rnds(R, s2), rmin=rnd(R_min, s2))
            # a tiny positive number must not be rounded to exact zero
            e["R"] = [(1 if v == 0 and r > 0 else -1 if v == 0 and r < 0 else v) for v, r in zip(e["R"], R.ravel())]
        except Exception as ex:
            e["exc"] = exc_name(ex)
            e["msg"] = str(ex)[:200]
        yield e
