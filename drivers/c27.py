import contextlib
import gc
import hashlib
import io
import os
import pickle
import types
import numpy as np
import pandas as pd
import xarray as xr
import torch
from venc import *
from pycomlink.processing import baseline, wet_antenna, k_R_relation, blackout_gap_detection as bgd, min_max
from pycomlink.processing import nearby_rain_retrival as nrr
from pycomlink.processing.wet_dry import nearby_wetdry as nw, mlp, stft
from pycomlink.processing.pytorch_utils import run_inference as ri
from pycomlink.processing.tensorflow_utils import inference_utils as tfu
from pycomlink.spatial import interpolator, idw, coverage, helper
from pycomlink.validation import stats, validator
from pycomlink.util import temporal
from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray
import c18
import c19
import c21
import c26

torch.set_num_threads(1)
NS = types.SimpleNamespace
T = 24
TIME = np.datetime64("2021-05-01", "ns") + np.arange(T) * np.timedelta64(900, "s")
T200 = np.datetime64("2021-05-01", "ns") + np.arange(200) * np.timedelta64(60, "s")


# ---------------------------------------------------------------- argument objects
def form(seed):
    return seed % 3  # 0 numpy, 1 DataArray over time, 2 DataArray over channels and time


def series(a, seed):
    """a: (2, T) -> the form of this seed."""
    k = form(seed)
    if k == 0:
        return a[0].copy()
    if k == 1:
        return xr.DataArray(a[0].copy(), dims="time", coords={"time": TIME}, attrs={"unit": "dB"})
    d = xr.DataArray(a.copy(), dims=("channel_id", "time"), coords={"time": TIME, "channel_id": ["c1", "c2"]}, name="s")
    return d.transpose("time", "channel_id") if seed % 2 else d


def param(v, seed):
    return xr.DataArray(np.array(v), dims="channel_id", coords={"channel_id": ["c1", "c2"]}) if form(seed) == 2 else v[0]


def holes(a, rng, p=.12):
    a = np.array(a, dtype=float)
    a[rng.rand(*a.shape) < p] = np.nan
    return a


def wrap1(a, seed):
    return [a, pd.Series(a), xr.DataArray(a, dims="time")][(seed // 3) % 3]


def links3(a, seed, t=None):
    d = xr.DataArray(a, dims=("cml_id", "time"), coords={"cml_id": ["a", "b", "c", "d"], "time": TIME, "length": ("cml_id", [1.0, 2, 4, 8])})
    return d.transpose("time", "cml_id") if seed % 2 else d


def make(name, seed, ver):
    """The argument object, in content 0 or 1."""
    if "." in name:
        call, p = name.split(".")
        return PAR[call][p][ver]
    g = np.random.RandomState((seed * 9973 + sum(map(ord, name)) * 13 + ver * 131) % 2**31)
    if name in ("rsl", "base", "A", "A0"):
        a = {"rsl": -45 - 20 * g.rand(2, T) ** 3, "base": -46 - 3 * g.rand(2, T), "A": 12 * g.rand(2, T) - 2, "A0": 12 * g.rand(2, T)}[name]
        a = holes(np.round(a, 2), g, 0 if name == "A" and seed % 2 else .12)
        if name == "rsl":
            a[np.repeat(g.rand(2, T // 3) < .25, 3, axis=1)] = np.nan
            a[:, :2] = -52 + ver
        return series(a, seed)
    if name == "wet":
        w = (np.repeat(g.rand(2, T // 3), 3, axis=1) < .5)
        w[:, 0] = False
        return series([w, w.astype(int), holes(w, g)][(seed // 2) % 3], seed)
    if name in ("gs", "ge"):
        return series(g.rand(2, T) < .6, seed)
    if name == "freq":
        return param([[18.5, 23.0], [15.0, 38.25]][ver], seed)
    if name == "pol":
        return param([["V", "H"], ["H", "V"]][ver], seed)
    if name == "len":
        return param([[4.5, 7.25], [12.0, 3.5]][ver], seed)
    if name == "fs":
        f = np.round(5 + 60 * g.rand(5), 1)
        return [f, xr.DataArray(f, dims="cml_id", coords={"cml_id": list("vwxyz")}), list(f)][form(seed)] if form(seed) != 2 else f
    if name == "ps":
        p = np.array(["V", "H", "v", "h", "V"])[g.permutation(5)]
        return xr.DataArray(p, dims="cml_id", coords={"cml_id": list("vwxyz")}) if form(seed) == 1 else p
    if name == "Amm":
        return holes(10 * g.rand(T), g)
    if name == "R1":
        return np.round(30 * g.rand(6), 1)
    if name == "mm":
        tx = holes(np.repeat(g.randint(10, 14, 6), 5).astype(float), g, .05)
        rx = holes(-45.0 - g.randint(0, 4, 30), g, .1)
        return [tx, tx + g.randint(0, 2, 30), rx, rx + g.randint(0, 3, 30)]
    if name == "sites":
        return {"cml_ids": ["p", "q", "r"], "site_a_latitude": 48 + g.rand(3), "site_a_longitude": 11 + g.rand(3),
                "site_b_latitude": 48 + g.rand(3), "site_b_longitude": 11 + g.rand(3)}
    if name in ("pmin", "pmax"):
        p = -45 - np.repeat(g.choice([0, 0, 1, 4, 9], (4, T // 3)), 3, axis=1) - g.randint(0, 2, (4, T))
        return links3(holes(p + (3 if name == "pmax" else 0), g, .05), seed)
    if name == "nwet":
        return links3(holes(g.rand(4, T) < .3, g, .05), seed)
    if name == "pref":
        return links3(holes(-44.0 - g.randint(0, 3, (4, T)), g, .05), seed)
    if name == "F":
        return links3(-40.0 * g.rand(4, T), seed)
    if name == "dists":
        d = 8 * g.rand(4, 4, 4)
        d = d + d.transpose(0, 2, 1)
        for m in d:
            np.fill_diagonal(m, 0)
        n = ["a_to_all_a", "a_to_all_b", "b_to_all_a", "b_to_all_b"]
        return xr.Dataset({k: (("cml_id1", "cml_id2"), m) for k, m in zip(n, d)}, coords={"cml_id1": list("abcd"), "cml_id2": list("abcd")})
    if name == "trsl":
        x = 50 + np.repeat(g.choice([0, 0, .3, 2, 6], (2, 40)), 5, axis=1) + .2 * g.randn(2, 200)
        x[g.randint(2), g.randint(200)] = np.nan
        return [xr.DataArray(v, dims="time", coords={"time": T200, "channel_id": c}) for v, c in zip(x, ("c1", "c2"))]
    if name == "sig":
        return np.round(-45 + np.repeat(g.choice([0, 0, -2, -6], 8), 8) + .3 * g.randn(64), 2)
    if name == "spec":
        return {"Pxx": g.rand(5, 57) * np.repeat(g.choice([1, 1, 9], (1, 19)), 3, axis=1), "f": np.linspace(0, 1 / 120, 5), "window": .5 + g.rand(8)}
    if name in ("tl", "tlds"):
        a = holes(60 + 10 * g.rand(2, 9, 2), g, .02)
        t = np.datetime64("2020-01-01", "ns") + np.arange(9) * np.timedelta64(60, "s")
        d = xr.DataArray(a, dims=("cml_id", "time", "channel_id"), coords={"cml_id": ["k", "l"], "time": t, "channel_id": ["c1", "c2"]})
        d = d.transpose("time", "cml_id", "channel_id").copy() if seed % 2 else d
        return d if name == "tl" else d.to_dataset(name="TL")
    if name == "model":
        m = c21.Lin(2, 4, 1 + seed % 2)
        with torch.no_grad():
            m.w += torch.tensor(g.rand(2, 4).astype("float32"))
        return m
    if name == "tres":
        t = np.datetime64("2020-01-01", "ns") + np.array([2, 3, 4, 2, 4]) * np.timedelta64(60, "s")
        return {"predictions": g.rand(5, 1).astype("float32"), "cml_ids": np.array(list("kkkll")), "times": t}
    if name == "cds":
        t = np.datetime64("2020-01-01", "ns") + np.arange(8) * np.timedelta64(60, "s")
        return xr.Dataset({v: (("cml_id", "time"), holes(g.rand(3, 8), g, .05)) for v in ("tl1", "tl2")}, coords={"cml_id": ["x", "y", "z"], "time": t})
    if name == "seqs":
        return (60 + 9 * g.rand(5, 4, 2)).astype("float32")
    if name == "tfres":
        return {"p": g.rand(6).astype("float32"), "ids": np.array(list("xxyyzz")), "t": np.array([2, 5, 3, 7, 0, 1])}
    if name == "xy":
        x = [3.0 * g.rand(9), 3.0 * g.rand(9)]
        return [pd.Series(v) for v in x] if form(seed) == 1 else x
    if name == "z":
        z = holes(5 * g.rand(9), g, .1)
        return pd.Series(z) if form(seed) == 1 else z
    if name == "zi":
        return 5 * g.rand(9)
    if name == "grid":
        return [v + .1 * ver for v in np.meshgrid(np.linspace(0, 3, 5), np.linspace(-.5, 3, 4))]
    if name == "q":
        return 3 * g.rand(5, 2)
    if name == "vario":
        return {"sill": .9 + ver, "range": 1.5 + ver, "nugget": .05}
    if name == "links":
        return [c26.cml([int(v) for v in g.randint(0, 9, 4)], .3, 0, 0) for _ in range(3)]
    if name == "df":
        ix = pd.date_range("2020-06-01", periods=30, freq="7min", name="time")
        ix = ix.tz_localize("UTC") if seed % 2 else ix.tz_localize("Europe/Berlin")
        return pd.DataFrame({"v": g.rand(30), "w": holes(g.rand(30), g)}, index=ix)
    if name == "newix":
        return pd.date_range("2020-06-01 00:20", periods=8, freq="25min" if ver else "20min")
    if name in ("wref", "wpred"):
        w = g.rand(20) < .4
        return wrap1([w, holes(w, g), w.astype(int)][seed % 3], seed)
    if name in ("rref", "rpred"):
        return wrap1(holes(np.maximum(0, np.round(8 * g.rand(20) - 2, 1)), g), seed)
    if name in ("tw", "pw"):
        w = g.rand(20) < .5
        w[:2] = [True, False]
        return pd.Series(w) if seed % 2 else w
    if name == "vcml":
        return NS(data=pd.DataFrame({"txrx_nf": holes(g.rand(20), g)}, index=pd.date_range("2020-06-01", periods=20, freq="5min")))
    if name == "vts":
        ix = pd.date_range("2020-06-01 00:10", periods=15, freq="5min").strftime("%Y-%m-%d %H:%M:%S")
        return xr.DataArray(g.rand(15), dims="time", coords={"time": np.array(ix)})
    if name == "gds":
        return c18.grid(g.rand(6, 4, 5), [0, 10, 20, 30, 40, 50], 1.0, 0.0, 0.0, seed % 2)
    if name == "gcml":
        return c18.Cml(*(1.2 + 5 * g.rand(4)), 5, 45)
    if name == "gdf":
        return pd.DataFrame({"R": g.rand(25)}, index=c18.stamps(range(6, 31), None))
    if name == "h5":
        s = lambda: [[i, int(v), int(w)] for i, (v, w) in enumerate(g.randint(-300, 300, (4, 2)))]
        return c19.write([{"id": i, "coord": [int(v) for v in g.randint(100, 120, 4)],
                           "ch": [{"name": "channel_1", "f": 18, "pol": "V", "s": s()}, {"name": "channel_2", "f": 22, "pol": "H", "s": s()}]} for i in ("m1", "m2")])
    raise KeyError(name)


def put(o, n):
    """Edit o in place so that it holds the content of n; returns the object to use further on."""
    if isinstance(o, np.ndarray):
        o[...] = n
    elif isinstance(o, xr.DataArray):
        o.values[...] = n.values
    elif isinstance(o, xr.Dataset):
        for v in o:
            o[v].values[...] = n[v].values
    elif isinstance(o, pd.Series):
        for i in range(len(o)):
            o.iat[i] = n.iat[i]
    elif isinstance(o, pd.DataFrame):
        for i in range(len(o)):
            for j in range(o.shape[1]):
                o.iat[i, j] = n.iat[i, j]
    elif isinstance(o, list):
        o[:] = [put(a, b) for a, b in zip(o, n)]
    elif isinstance(o, dict):
        for k in o:
            o[k] = put(o[k], n[k])
    elif isinstance(o, NS):
        for k in vars(o):
            setattr(o, k, put(getattr(o, k), getattr(n, k)))
    elif isinstance(o, c18.Cml):
        put(o.c, n.c)
    elif isinstance(o, torch.nn.Module):
        with torch.no_grad():
            o.w.copy_(n.w)
    elif isinstance(o, str) and o.endswith(".h5"):
        os.replace(n, o)
    else:
        return n
    return o


def digest(o):
    """What the user can see of an argument object."""
    if isinstance(o, np.ndarray):
        return ("nd", o.dtype.str, o.shape, hashlib.md5(o.tobytes()).hexdigest()) if o.dtype != object else ("nd", o.shape, repr(o.tolist()))
    if isinstance(o, xr.DataArray):
        return ("da", o.name, o.dims, digest(o.values), digest(dict(o.attrs)), {k: (c.dims, digest(c.values)) for k, c in o.coords.items()})
    if isinstance(o, xr.Dataset):
        return ("ds", {k: digest(v) for k, v in o.variables.items()}, list(o), list(o.coords), dict(o.attrs))
    if isinstance(o, xr.Variable):
        return ("var", o.dims, digest(o.values))
    if isinstance(o, pd.Index):
        return ("ix", str(o.dtype), o.name, digest(o.values))
    if isinstance(o, pd.Series):
        return ("se", o.name, digest(o.values), digest(o.index))
    if isinstance(o, pd.DataFrame):
        return ("df", list(o.columns), [digest(o[c].values) for c in o], digest(o.index))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [digest(v) for v in o])
    if isinstance(o, dict):
        return ("dict", [(k, digest(v)) for k, v in o.items()])
    if isinstance(o, NS):
        return ("ns", digest(vars(o)))
    if isinstance(o, c18.Cml):
        return ("cml", digest(vars(o)))
    if isinstance(o, torch.nn.Module):
        return ("model", [(k, digest(v.numpy())) for k, v in o.state_dict().items()])
    if isinstance(o, str) and o.endswith(".h5"):
        with open(o, "rb") as f:
            return hashlib.md5(f.read()).hexdigest()
    return repr(o)


# ---------------------------------------------------------------- the functions
ST = dict(f_divide=1e-3, t_dry_start=2, t_dry_stop=20)


def vec(x):
    """One series of the object as array (a view)."""
    return x if isinstance(x, np.ndarray) else x.values if x.ndim == 1 else x.isel(channel_id=0).values


def grid_series(o, s):
    gv = s.setdefault(("gv", id(o["gds"])), validator.GridValidator(xr_ds=o["gds"]))
    return gv, gv.get_time_series(o["gcml"], "R")


def krig(s, **kw):
    return s.setdefault(("ok", tuple(sorted(kw))), interpolator.OrdinaryKrigingInterpolator(**kw))


def idw_of(s, **kw):
    return s.setdefault(("idw", tuple(sorted(kw.items()))), interpolator.IdwKdtreeInterpolator(**kw))


PAR = {
    "baseline_constant": {"n_average_last_dry": (3, 2)},
    "waa_schleiss": {"waa_max": (2.3, 1.7), "delta_t": (1, 2), "tau": (15, 9)},
    "blackout_markers": {"rsl_threshold": (-50, -53)},
    "waa_leijnse_A": {"T_K": (293.0, 281.0), "gamma": (2.06e-05, 3e-05), "delta": (0.24, 0.3), "n_antenna": ((1.73+0.014j), (1.6+0.02j)), "l_antenna": (0.001, 0.0014)},
    "waa_pastorek_A": {"A_max": (14, 9), "zeta": (0.55, 0.7), "d": (0.1, 0.16)},
    "calc_R": {"R_min": (0.1, 1.5), "a_b_approximation": ('ITU_2005', 'ITU_2003')},
    "calc_R_ab": {"a": (0.1, 0.07), "b": (1.05, 0.9)},
    "calc_R_min_max": {"L": (5.0, 7.0), "a": (0.1, 0.07), "b": (1.1, 0.9), "R_min": (0.1, 1.5), "k": (90, 30)},
    "a_b": {"approx_type": ('ITU_2005', 'ITU_2003')},
    "waa_leijnse": {"f_Hz": (23000000000.0, 18000000000.0), "T_K": (293.0, 281.0), "gamma": (2.06e-05, 3e-05), "delta": (0.24, 0.3), "n_antenna": ((1.73+0.014j), (1.6+0.02j)), "l_antenna": (0.001, 0.0014)},
    "waa_pastorek": {"A_max": (14, 9), "zeta": (0.55, 0.7), "d": (0.1, 0.16)},
    "eps_water": {"T_K": (293.0, 281.0)},
    "A_min_max": {"gT": (1.0, 0.5), "gR": (0.6, 0.3), "window": (7, 3)},
    "nearby_wetdry": {"radius": (15, 9), "thresh_median_P": (-1.4, -3.0), "thresh_median_PL": (-0.7, -0.3), "min_links": (2, 3), "interval": (15, 30), "timeperiod": (2, 3), "min_hours": (1, 2)},
    "nearby_ref": {"n_average_dry": (6, 4), "min_periods": (2, 4)},
    "nearby_rain": {"length": (4.0, 6.0), "a": (0.1, 0.07), "b": (1.05, 0.9), "waa_max": (2.3, 1.0), "alpha": (0.33, 0.5), "F_value_threshold": (-32.5, -10.0)},
    "mlp_rad_online": {"model_sel": ('rad_online', 'rg_online')},
    "stft": {"window_length": (8, 6), "threshold": (1.3, 0.7), "f_divide": (0.001, 0.003), "t_dry_start": (5, 9), "t_dry_stop": (20, 30), "f_sampling": (0.016666666666666666, 0.02)},
    "lowest_std": {"window_length": (16, 11)},
    "torch_windows": {"window_size": (4, 3), "reflength": (2, 4)},
    "torch_inference": {"batch_size": (3, 2), "reflength": (2, 4)},
    "tf_samples": {"seq_len": (3, 2)},
    "invdisttree": {"nnear": (4, 3), "p": (2, 1), "max_distance": (None, 1.0)},
    "clim_var": {"date_str": ('20200715', '20200115'), "time_scale_hours": (1.0, 0.5)},
    "coverage": {"max_dist_from_cml": (0.45, 0.8)},
    "aggregate": {"label": ('right', 'left')},
    "rain_metrics": {"rainfall_threshold_wet": (1.0, 2.0)},
}


def kw(o, call):
    """The scalar parameters of a call."""
    return {p: o[f"{call}.{p}"] for p in PAR[call]}


# o: argument objects, s: interpolators and validators kept during the history
FUN = {
    "baseline_constant": lambda o, s: baseline.baseline_constant(o["rsl"], o["wet"], **kw(o, "baseline_constant")),
    "baseline_constant_1": lambda o, s: baseline.baseline_constant(trsl=o["rsl"], wet=o["wet"]),
    "baseline_linear": lambda o, s: baseline.baseline_linear(vec(o["rsl"]), vec(o["wet"])),
    "baseline_linear_nan": lambda o, s: baseline.baseline_linear(vec(o["rsl"]), vec(o["wet"]), ignore_nan=True),
    "waa_schleiss": lambda o, s: wet_antenna.waa_schleiss_2013(o["rsl"], o["base"], o["wet"], **kw(o, "waa_schleiss")),
    "blackout_markers": lambda o, s: bgd.get_blackout_start_and_end(o["rsl"], **kw(o, "blackout_markers")),
    "blackout_mask": lambda o, s: bgd.created_blackout_gap_mask_from_start_end_markers(vec(o["rsl"]), vec(o["gs"]), vec(o["ge"])),
    "waa_leijnse_A": lambda o, s: wet_antenna.waa_leijnse_2008_from_A_obs(o["A0"], o["freq"] * 1e9, o["pol"], o["len"], **kw(o, "waa_leijnse_A")),
    "waa_pastorek_A": lambda o, s: wet_antenna.waa_pastorek_2021_from_A_obs(o["A0"], o["freq"] * 1e9, o["pol"], o["len"], **kw(o, "waa_pastorek_A")),
    "calc_R": lambda o, s: k_R_relation.calc_R_from_A(o["A"], o["len"], o["freq"], o["pol"], **kw(o, "calc_R")),
    "calc_R_2003": lambda o, s: k_R_relation.calc_R_from_A(o["A"], o["len"], o["freq"], o["pol"], a_b_approximation="ITU_2003", R_min=0),
    "calc_R_ab": lambda o, s: k_R_relation.calc_R_from_A(o["A"], o["len"], **kw(o, "calc_R_ab")),
    "calc_R_min_max": lambda o, s: k_R_relation.calc_R_from_A_min_max(o["Amm"], **kw(o, "calc_R_min_max")),
    "a_b": lambda o, s: k_R_relation.a_b(o["fs"], o["ps"], **kw(o, "a_b")),
    "a_b_2003": lambda o, s: k_R_relation.a_b(o["fs"], o["ps"], approx_type="ITU_2003"),
    "waa_leijnse": lambda o, s: wet_antenna.waa_leijnse_2008(o["R1"], **kw(o, "waa_leijnse")),
    "waa_pastorek": lambda o, s: wet_antenna.waa_pastorek_2021(o["R1"], **kw(o, "waa_pastorek")),
    "eps_water": lambda o, s: wet_antenna.eps_water(np.asarray(o["fs"]) * 1e9, **kw(o, "eps_water")),
    "A_min_max": lambda o, s: min_max._calc_A_min_max(*o["mm"], **kw(o, "A_min_max")),
    "cml_distances": lambda o, s: nw.calc_distance_between_cml_endpoints(**o["sites"]),
    "haversine": lambda o, s: helper.haversine(*[o["sites"][k] for k in c19.C[1::-1] + c19.C[:1:-1]]),
    "nearby_wetdry": lambda o, s: nw.nearby_wetdry(o["pmin"], o["dists"], **kw(o, "nearby_wetdry")),
    "nearby_ref": lambda o, s: nrr.nearby_determine_reference_level(o["pmin"], o["pmax"], o["nwet"], **kw(o, "nearby_ref")),
    "nearby_correct": lambda o, s: nrr.nearby_correct_received_signals(o["pmin"], o["pmax"], o["nwet"], o["pref"]),
    "nearby_rain": lambda o, s: nrr.nearby_rainfall_retrival(o["pref"], o["pmin"], o["pmax"], o["F"], **kw(o, "nearby_rain")),
    "mlp_rad_online": lambda o, s: mlp.mlp_wet_dry(*o["trsl"], **kw(o, "mlp_rad_online")),
    "mlp_rg": lambda o, s: mlp.mlp_wet_dry(*o["trsl"], model_sel="rg"),
    "stft": lambda o, s: stft.stft_classification(o["sig"], **kw(o, "stft")),
    "stft_mirror": lambda o, s: stft.stft_classification(o["sig"], 8, 1.3, f_divide=1e-3, dry_length=16, mirror=True),
    "stft_given": lambda o, s: stft.stft_classification(o["sig"], 8, 1.3, **ST, **o["spec"]),
    "lowest_std": lambda o, s: stft.find_lowest_std_dev_period(o["sig"], **kw(o, "lowest_std")),
    "torch_windows": lambda o, s: ri.batchify_windows(o["tl"].transpose("cml_id", "time", "channel_id"), **kw(o, "torch_windows")),
    "torch_inference": lambda o, s: ri.run_inference(o["model"], o["tl"], **kw(o, "torch_inference")),
    "torch_redistribute": lambda o, s: ri.redistribute_results(o["tres"], o["tlds"]),
    "tf_samples": lambda o, s: tfu.create_samples(o["cds"], ["z", "x"], ["tl1", "tl2"], **kw(o, "tf_samples")),
    "tf_scale": lambda o, s: tfu.scale_features(o["seqs"], ["tl1", "tl2"]),
    "tf_store": lambda o, s: tfu.store_predictions(o["cds"], o["tfres"]["p"], o["tfres"]["ids"], o["tfres"]["t"]),
    "idw": lambda o, s: idw_of(s, nnear=4, p=2)(*o["xy"], o["z"], *o["grid"]),
    "idw_nan": lambda o, s: idw_of(s, nnear=3, exclude_nan=False, max_distance=1.1)(*o["xy"], o["z"], *o["grid"]),
    "idw_res": lambda o, s: idw_of(s, nnear=4, p=2)(*o["xy"], o["z"], resolution=.7),
    "kriging": lambda o, s: krig(s, variogram_parameters=o["vario"])(*o["xy"], o["z"], *o["grid"]),
    "kriging_default": lambda o, s: krig(s)(*o["xy"], o["z"], *o["grid"]),
    "invdisttree": lambda o, s: s.setdefault("tree", idw.Invdisttree(np.stack([np.arange(9) % 3, np.arange(9) // 3], 1).astype(float)))(
        o["q"], o["zi"], **kw(o, "invdisttree")),
    "clim_var": lambda o, s: interpolator.clim_var_param(**kw(o, "clim_var")),
    "coverage": lambda o, s: coverage.calc_coverage_mask(o["links"], *o["grid"], **kw(o, "coverage")),
    "aggregate": lambda o, s: temporal.aggregate_df_onto_DatetimeIndex(o["df"], o["newix"], np.mean, **kw(o, "aggregate")),
    "aggregate_left": lambda o, s: temporal.aggregate_df_onto_DatetimeIndex(o["df"], o["newix"], np.sum, label="left", new_index_tz="Europe/Berlin"),
    "wet_dry_metrics": lambda o, s: stats.calc_wet_dry_performance_metrics(o["wref"], o["wpred"]),
    "rain_metrics": lambda o, s: stats.calc_rain_error_performance_metrics(o["rref"], o["rpred"], **kw(o, "rain_metrics")),
    "wet_error_rates": lambda o, s: stats.calc_wet_error_rates(o["tw"], o["pw"]),
    "wet_dry_error": lambda o, s: validator.calc_wet_dry_error(o["tw"], o["pw"]),
    "validator_stats": lambda o, s: validator.Validator().calc_stats(o["vcml"], o["vts"]),
    "grid_series": lambda o, s: grid_series(o, s)[1],
    "grid_resample": lambda o, s: grid_series(o, s)[0].resample_to_grid_time_series(o["gdf"], "right"),
    "read_cmlh5": lambda o, s: read_cmlh5_file_to_xarray(o["h5"]),
}


def invoke(name, o, s):
    """(result as plain data, the result itself, exception name)"""
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            r = FUN[name](o, s)
        return plain(r), r, ""
    except Exception as e:
        return None, None, exc_name(e)


def plain(r):
    if isinstance(r, xr.DataArray):
        return ("da", r.name, r.dims, np.array(r.values), {k: (c.dims, np.array(c.values)) for k, c in r.coords.items()})
    if isinstance(r, xr.Dataset):
        return ("ds", sorted(map(str, r.data_vars)), {str(k): plain(v) for k, v in r.data_vars.items()}, sorted(map(str, r.coords)))
    if isinstance(r, pd.DataFrame):
        return ("df", list(r.columns), [np.array(r[c].values) for c in r], [str(t) for t in r.index])
    if isinstance(r, pd.Series):
        return ("se", np.array(r.values), [str(t) for t in r.index])
    if isinstance(r, dict):
        return ("dict", {k: plain(v) for k, v in r.items()})
    if isinstance(r, (list, tuple)):
        return ("seq", [plain(v) for v in r])
    return np.array(r)


def close(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return sorted(map(str, a)) == sorted(map(str, b)) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or (a.dtype.kind in "Mm") != (b.dtype.kind in "Mm"):
            return False
        if a.dtype.kind in "Mm":
            return bool((a == b).all())
        return same(a, b, rtol=1e-7, atol=1e-9)
    return a == b


def scribble(r, o):
    """Edit a returned result in place, unless it shares memory with an argument."""
    args = []

    def arrs(x, out):
        if isinstance(x, np.ndarray):
            out.append(x)
        elif isinstance(x, (xr.DataArray, pd.Series, pd.Index)):
            out.append(x.values)
        elif isinstance(x, (xr.Dataset, dict)):
            [arrs(v, out) for v in x.values()]
        elif isinstance(x, pd.DataFrame):
            [arrs(x[c].values, out) for c in x]
        elif isinstance(x, (list, tuple)):
            [arrs(v, out) for v in x]
        elif isinstance(x, (NS, c18.Cml)):
            arrs(vars(x), out)

    arrs(o, args)
    res = []
    arrs(r if not isinstance(r, xr.Dataset) else dict(r.variables), res)
    for a in res:
        if a.flags.writeable and a.size and a.dtype.kind in "fiub" and not any(np.shares_memory(a, b) for b in args):
            a[...] = (a.astype(float) * 0 + 7.5).astype(a.dtype)
    if isinstance(r, dict):
        for k in list(r):
            if isinstance(r[k], float):
                r[k] = -77.0


# ---------------------------------------------------------------- histories in processes of their own
def forked(fn):
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            b = pickle.dumps(fn())
        except BaseException as e:
            b = pickle.dumps(RuntimeError(f"{type(e).__name__}: {e}"))
        try:
            with os.fdopen(wr, "wb") as f:
                f.write(b)
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        b = f.read()
    os.waitpid(pid, 0)
    if not b:
        raise RuntimeError("history process died")
    r = pickle.loads(b)
    if isinstance(r, RuntimeError):
        raise r
    return r


FRESH = {}
USES = {}
SHARED = os.path.join(os.path.dirname(os.environ["TMPDIR"]), "fresh27")


def fresh(seed, name, uses, key):
    """Result of the call in a process in which nothing else was called (argument contents given by key)."""
    k = (seed, name, tuple(key))
    if k not in FRESH:
        os.makedirs(SHARED, exist_ok=True)
        fn = os.path.join(SHARED, f"{seed}-{name}-" + "".join(str(v) for v in key))
        if os.path.exists(fn):
            with open(fn, "rb") as f:
                FRESH[k] = pickle.load(f)
        else:
            FRESH[k] = ZYG[0].ask(("first", seed, name, tuple(uses), tuple(key)))
            with open(fn + f".{os.getpid()}", "wb") as f:
                pickle.dump(FRESH[k], f)
            os.rename(fn + f".{os.getpid()}", fn)
    return FRESH[k]


def first(seed, name, uses, key):
    return forked(lambda: invoke(name, {u: make(u, seed, v) for u, v in zip(uses, key)}, {})[::2])


class Zygote:
    """A process forked before any call, from which the processes for first calls are forked."""

    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        if os.fork() == 0:
            try:
                os.close(w1), os.close(r2)
                i, o = os.fdopen(r1, "rb"), os.fdopen(w2, "wb")
                while True:
                    q = pickle.load(i)
                    try:
                        a = first(*q[1:]) if q[0] == "first" else forked(lambda: history(*q[1:]))
                    except Exception as e:
                        a = RuntimeError(str(e))
                    pickle.dump(a, o)
                    o.flush()
            finally:
                os._exit(0)
        os.close(r1), os.close(w2)
        self.i, self.o = os.fdopen(r2, "rb"), os.fdopen(w1, "wb")

    def ask(self, q):
        pickle.dump(q, self.o)
        self.o.flush()
        a = pickle.load(self.i)
        if isinstance(a, RuntimeError):
            raise a
        return a


ZYG = []


def history(seed, steps, ref):
    """Runs the steps; per call the exception, the changed objects and the keys of equal first results."""
    o = {u: make(u, seed, 0) for st in steps if st["op"] == "call" for u in USES[st["c"]]}
    ver = {u: 0 for u in o}
    s, last, out = {}, {}, []
    for st in steps:
        if st["op"] == "edit":
            ver[st["o"]] = 1 - ver[st["o"]]
            o[st["o"]] = put(o[st["o"]], make(st["o"], seed, ver[st["o"]]))
            out.append({})
        elif st["op"] == "scribble":
            if st["c"] in last:
                scribble(last[st["c"]], o)
            out.append({})
        else:
            name = st["c"]
            d = {u: digest(v) for u, v in o.items()}
            res, raw, exc = invoke(name, o, s)
            last[name] = raw
            eq = [list(k) for k, (r, e) in ref[name].items() if e == exc and (exc or close(r, res))]
            changed = [u for u, v in o.items() if digest(v) != d[u]]
            out.append({"eq": eq, "kept": ",".join(changed), "exc": exc, "brief": repr(res)[:300]})
    return out


def reference(seed, steps):
    """First results for the contents (key) each call sees."""
    ref = {}
    for st in steps:
        if st["op"] == "call":
            k = tuple(st["key"])
            ref.setdefault(st["c"], {})[k] = fresh(seed, st["c"], USES[st["c"]], k)
    return ref


def setup():
    if not ZYG:
        gc.collect()
        gc.freeze()
        ZYG.append(Zygote())


def uses():
    import ast
    import re
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "..", "spec", "C27.tla")) as f:
        for nm, ob in re.findall(r'<<"(\w+)",\s*<<([^>]*)>>>>', f.read()):
            USES[nm] = list(ast.literal_eval("[" + ob + "]"))
    assert set(USES) == set(FUN), set(USES) ^ set(FUN)


uses()


def replay_setup(job):
    setup()


def judge(steps, out):
    m = []
    for i, (st, r) in enumerate(zip(steps, out)):
        if st["op"] != "call":
            continue
        if r["exc"]:
            m.append(f"step {i + 1}, {st['c']} raised {r['exc']}")
            continue
        if r["kept"]:
            m.append(f"step {i + 1}, {st['c']} changed {r['kept']}")
        if list(st["key"]) not in r["eq"]:
            m.append(f"step {i + 1}, {st['c']} gives another result than a first call with the same arguments: {r['brief']}")
    return m


def replay(c, job, ctx):
    seed = c["seed"] % 6
    ref = reference(seed, c["steps"])
    m = judge(c["steps"], history(seed, c["steps"], ref))
    if m:
        again = judge(c["steps"], ZYG[0].ask(("history", seed, c["steps"], ref)))
        m = again or [x + " (after the histories before this one)" for x in m]
    return m


def record(rng, job, tier, progress):
    setup()
    names = sorted(FUN)
    for i in range(job["n"]):
        seed = 1000 + int(rng.randint(10**6))
        sub = [names[k] for k in rng.permutation(len(names))[:int(rng.choice([2, 5, 12]))]]
        ver, steps = {}, []
        objs = sorted({u for n in sub for u in USES[n]})
        for _ in range(int(rng.choice([6, 15, 30]))):
            u = rng.rand()
            if u < .2 and objs:
                o = objs[rng.randint(len(objs))]
                ver[o] = 1 - ver.get(o, 0)
                steps.append({"op": "edit", "o": o})
            elif u < .3 and steps and steps[-1]["op"] == "call":
                steps.append({"op": "scribble", "c": steps[-1]["c"]})
            else:
                n = sub[rng.randint(len(sub))]
                steps.append({"op": "call", "c": n, "key": [ver.get(x, 0) for x in USES[n]]})
        objs_used = {u for st in steps if st["op"] == "call" for u in USES[st["c"]]}
        steps = [st for st in steps if st["op"] != "edit" or st["o"] in objs_used]
        progress({"seed": seed, "steps": steps})
        ref = reference(seed, steps)
        out = ZYG[0].ask(("history", seed, steps, ref))
        FRESH.clear()
        yield {"seed": seed, "steps": [dict({k: v for k, v in st.items() if k != "key"}, **{k: v for k, v in r.items() if k != "brief"}) for st, r in zip(steps, out)], "exc": ""}
