import numpy as np
import pandas as pd
import xarray as xr
import physics
from venc import *
from pycomlink.processing.wet_antenna import (
    waa_leijnse_2008, waa_leijnse_2008_from_A_obs, waa_pastorek_2021, waa_pastorek_2021_from_A_obs)
from pycomlink.processing.k_R_relation import a_b

S = 1e6
ANT = {1: (complex(1.73, 0.014), 0.001), 2: (complex(2.1, 0.03), 0.0025)}


def replay(c, job, ctx):
    msgs = []
    if c["kind"] == "leijnse":
        n_a, l_a = ANT[c["ant"]]
        kw = dict(T_K=float(c["T"]), gamma=c["film0"] * 1e-6, delta=1.0 / c["n"], n_antenna=n_a, l_antenna=l_a)
        if c["ant"] == 1:
            del kw["n_antenna"], kw["l_antenna"]
        if c["T"] == 293:
            del kw["T_K"]
        R = 0.0 if c["zero"] else float(2 ** c["m"])
        f = c["f"] * 1e9
        calls = [("scalar", lambda: waa_leijnse_2008(R, f, **kw)),
                 ("array", lambda: waa_leijnse_2008(np.array([7.0, R, 0.0]), f_Hz=f, **kw)[1]),
                 ("int", lambda: waa_leijnse_2008(int(R), f, **kw))]
        exp, tol = c["val"] / S, 1.5e-6
    else:
        kw = dict(A_max=c["amax"], d=c["j"] * np.log(2), zeta={1: 1, 2: 2.0, 3: 0.5}[c["z"]])
        R = float(c["R"])
        calls = [("scalar", lambda: waa_pastorek_2021(R, **kw)),
                 ("array", lambda: waa_pastorek_2021(np.array([7.0, R, 0.0]), **kw)[1]),
                 ("pos", lambda: waa_pastorek_2021(np.array([R]), kw["A_max"], kw["zeta"], kw["d"])[0])]
        exp, tol = c["val"] / 2.0**20, 1e-5
    for name, fn in calls:
        try:
            out = float(fn())
        except Exception as e:
            msgs.append(f"raised {exc_name(e)} ({name})")
            continue
        if R == 0 and out != 0:
            msgs.append(f"not exactly 0 for rain rate 0 ({name})")
        if not abs(out - exp) <= tol:
            msgs.append(f"wet antenna attenuation {out} differs from specification {exp} ({name})")
    return msgs


def rand_par(rng, model):
    if rng.rand() < 0.4:
        return {}
    if model == "L":
        kw = dict(gamma=10 ** rng.uniform(-5.5, -4.3), delta=rng.uniform(0.1, 0.6), T_K=rng.uniform(271, 310),
                  n_antenna=complex(rng.uniform(1.3, 2.3), rng.uniform(0.0, 0.04)), l_antenna=rng.uniform(5e-4, 3e-3))
    else:
        kw = dict(A_max=rng.uniform(2, 20), zeta=rng.uniform(0.3, 0.9), d=rng.uniform(0.05, 0.3))
    return {k: v for k, v in kw.items() if rng.rand() < 0.7}


def ref(model, R, f, kw):
    if model == "L":
        nm = {"T_K": "T", "n_antenna": "n_ant", "l_antenna": "l_ant"}
        return physics.waa_leijnse(float(R), f, **{nm.get(k, k): v for k, v in kw.items()})
    return float(physics.waa_pastorek(float(R), **kw))


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        model = "LP"[rng.randint(2)]
        kw = rand_par(rng, model)
        f = float(np.round(rng.uniform(5, 90), 3)) * 1e9
        n = int(rng.choice([1, 2, 5, 15]))
        R = np.round(10 ** rng.uniform(-2, 2.2, n), 3)
        R[rng.rand(n) < 0.15] = 0
        u = rng.rand()
        if u < 0.4:
            e = {"k": "formula", "model": model, "f": f, "R": R.tolist(), "par": str(kw), "exc": "", "shape": True, "waa": [], "ref": [],
                 "zero": [], "max": 0}
            progress(e)
            try:
                form = rng.randint(4)
                fn = (lambda r: waa_leijnse_2008(r, f, **kw)) if model == "L" else (lambda r: waa_pastorek_2021(r, **kw))
                if form == 0:
                    out = np.array([float(fn(float(r))) for r in R])
                elif form == 1:
                    if rng.rand() < 0.3:
                        R[rng.randint(n)] = np.nan
                    out = fn(R)
                elif form == 2:
                    out = fn(np.stack([R, R[::-1]]))
                    e["shape"] = out.shape == (2, n)
                    out = out[1][::-1]
                else:
                    d = xr.DataArray(R, dims="time", coords={"time": np.arange(n)})
                    out = np.asarray(fn(d))
                e["waa"] = [(1 if v == 0 and o != 0 else v) for v, o in zip(rnds(out, S), np.ravel(out))]
                e["ref"] = rnds([ref(model, r, f, kw) for r in R], S)
                e["zero"] = [bool(r == 0) for r in R]
                if model == "P":
                    e["max"] = rnd(kw.get("A_max", 14), S) + 1
            except Exception as ex:
                e["exc"] = exc_name(ex)
                e["msg"] = str(ex)[:200]
            yield e
            continue
        pol = ["H", "V", "h", "vertical", "Horizontal"][rng.randint(5)]
        L = float(np.round(rng.uniform(0.3, 30), 2))
        inv = waa_leijnse_2008_from_A_obs if model == "L" else waa_pastorek_2021_from_A_obs
        fs, Ls, ps, Rs = [f], [L], [pol], [R]
        form = int(rng.randint(5))
        if form == 4:  # several links
            fs = [float(np.round(rng.uniform(5, 90), 1)) * 1e9 for _ in range(3)]
            Ls = [float(np.round(rng.uniform(0.3, 30), 2)) for _ in range(3)]
            ps = [["H", "V"][rng.randint(2)] for _ in range(3)]
            Rs = [R, R[::-1], np.roll(R, 1)]
        waa, aobs = [], []
        for ff, LL, pp, RR in zip(fs, Ls, ps, Rs):
            a, b = a_b(ff / 1e9, pp)
            w = np.array([ref(model, r, ff, kw) for r in RR])
            waa.append(w)
            aobs.append(a * RR**b * LL + w)
        waa, aobs = np.array(waa), np.array(aobs)
        # keep inside the lookup table (A_rain up to 1000 dB)
        if aobs.max() > 900:
            continue
        if rng.rand() < 0.3:
            aobs[rng.rand(*aobs.shape) < 0.2] = np.nan
        if u > 0.9:  # rejection of negative values
            i = rng.randint(aobs.size)
            aobs.ravel()[i] = -rng.choice([1e-6, 0.5, 30])
            e = {"k": "reject", "model": model, "A": aobs.ravel().tolist(), "exc": ""}
        else:
            e = {"k": "invert", "model": model, "f": fs, "L": Ls, "pol": ps, "par": str(kw), "form": form, "exc": "", "shape": True,
                 "waa": rnds(waa, S), "aobs": rnds(aobs, S), "out": []}
        progress(e)
        try:
            if form == 4:
                dims = ("cml_id", "time")
                A = xr.DataArray(aobs, dims=dims, coords={"cml_id": ["p", "q", "r"]})
                if rng.rand() < 0.5:
                    A = A.transpose("time", "cml_id")
                P = [xr.DataArray(v, dims="cml_id", coords={"cml_id": ["p", "q", "r"]}) for v in (fs, ps, Ls)]
                if rng.rand() < 0.5:
                    out = inv(A, P[0], P[1], P[2], **kw)
                else:
                    out = inv(A_obs=A, L_km=P[2], pol=P[1], f_Hz=P[0], **kw)
                out = out.transpose("cml_id", "time").values
            elif form == 0:
                out = inv(aobs[0], f, pol, L, **kw)
            elif form == 1:
                out = inv(A_obs=aobs[0], L_km=L, pol=pol, f_Hz=f, **kw)
            elif form == 2:
                out = inv(xr.DataArray(aobs[0], dims="time"), f, pol, L_km=L, **kw).values
            else:
                out = np.array([float(np.ravel(inv(np.float64(v), f, pol, L, **kw))[0]) for v in aobs[0]])
            if e["k"] == "invert":
                out = np.asarray(out)
                e["shape"] = out.size == aobs.size
                e["out"] = [(1 if v == 0 and o != 0 and w == 0 else v) for v, o, w in zip(rnds(out, S), np.ravel(out), np.ravel(aobs))]
        except Exception as ex:
            e["exc"] = exc_name(ex)
            e["msg"] = str(ex)[:200]
        yield e
