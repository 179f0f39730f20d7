import itertools
import numpy as np
import xarray as xr
from venc import *
from pycomlink.processing.baseline import baseline_constant
from pycomlink.processing.wet_antenna import (
    waa_schleiss_2013, waa_leijnse_2008_from_A_obs, waa_pastorek_2021_from_A_obs)
from pycomlink.processing.k_R_relation import calc_R_from_A
from pycomlink.processing.blackout_gap_detection import get_blackout_start_and_end
from pycomlink.processing.nearby_rain_retrival import nearby_rainfall_retrival

NONE = "<None>"
FN = {
    "baseline_constant": (baseline_constant, ["trsl", "wet", "n_average_last_dry"]),
    "waa_schleiss_2013": (waa_schleiss_2013, ["rsl", "baseline", "wet", "waa_max", "delta_t", "tau"]),
    "waa_leijnse_2008_from_A_obs": (waa_leijnse_2008_from_A_obs,
                                    ["A_obs", "f_Hz", "pol", "L_km", "T_K", "gamma", "delta", "n_antenna", "l_antenna"]),
    "waa_pastorek_2021_from_A_obs": (waa_pastorek_2021_from_A_obs, ["A_obs", "f_Hz", "pol", "L_km", "A_max", "zeta", "d"]),
    "get_blackout_start_and_end": (get_blackout_start_and_end, ["rsl", "rsl_threshold"]),
    "calc_R_from_A": (calc_R_from_A, ["A", "L_km", "f_GHz", "pol", "a", "b", "a_b_approximation", "R_min"]),
    "nearby_rainfall_retrival": (nearby_rainfall_retrival,
                                 ["pref", "p_c_min", "p_c_max", "F", "length", "f_GHz", "pol", "a", "b", "a_b_approximation",
                                  "waa_max", "alpha", "F_value_threshold"]),
}
FN["calc_R_from_A_ab"] = FN["calc_R_from_A"]
FN["nearby_rainfall_retrival_ab"] = FN["nearby_rainfall_retrival"]


def values(f, rng, nl, nc, nt):
    """parameter -> ('ts'|'link'|'scalar', array indexed [link, channel(, time)] or the scalar)"""
    def ts(lo, hi, miss=0.1):
        x = np.round(rng.uniform(lo, hi, (nl, nc, nt)), 2)
        x[rng.rand(nl, nc, nt) < miss] = np.nan
        return ("ts", x)

    def wet():
        return ("ts", np.array([[runs(rng, nt, [0.0, 1.0], 3) for _ in range(nc)] for _ in range(nl)]))

    def link(vals):
        return ("link", np.array([[vals[rng.randint(len(vals))] for _ in range(nc)] for _ in range(nl)]))

    def sc(v):
        return ("scalar", v)

    base = f.replace("_ab", "") if f.endswith("_ab") else f
    if base == "baseline_constant":
        return {"trsl": ts(40, 60), "wet": wet(), "n_average_last_dry": link([2, 3, 4])}
    if base == "waa_schleiss_2013":
        return {"rsl": ts(50, 60), "baseline": ts(48, 52, 0), "wet": wet(), "waa_max": link([1.5, 2.5]), "delta_t": link([1.0, 2.0]),
                "tau": link([15.0, 30.0])}
    if base == "get_blackout_start_and_end":
        return {"rsl": ts(-80, -50, 0.3), "rsl_threshold": link([-65.0, -60.0])}
    if base in ("waa_leijnse_2008_from_A_obs", "waa_pastorek_2021_from_A_obs"):
        d = {"A_obs": ts(0, 12), "f_Hz": link([18.5e9, 23e9, 38e9]), "pol": link(["H", "V"]), "L_km": link([2.0, 7.5])}
        if "leijnse" in base:
            d.update(T_K=sc(280.0), gamma=sc(1.5e-5), delta=sc(0.4), n_antenna=sc(complex(2.0, 0.02)), l_antenna=sc(0.002))
        else:
            d.update(A_max=link([6.0, 9.0]), zeta=sc(0.7), d=sc(0.2))
        return d
    coef = {"f_GHz": link([18.5, 23.0, 38.0]), "pol": link(["H", "V"]), "a": sc(None), "b": sc(None)}
    if f.endswith("_ab"):
        coef = {"f_GHz": sc(None), "pol": sc(None), "a": link([0.1, 0.2]), "b": link([0.9, 1.1])}
    if base == "calc_R_from_A":
        return {"A": ts(-2, 12), "L_km": link([2.0, 7.5]), **coef, "a_b_approximation": sc("ITU_2003"), "R_min": sc(1.5)}
    return {"pref": ts(-50, -48), "p_c_min": ts(-70, -48), "p_c_max": ts(-60, -48), "F": ts(-40, 5, 0), "length": link([2.0, 7.5]), **coef,
            "a_b_approximation": sc("ITU_2003"), "waa_max": sc(1.1), "alpha": sc(0.5), "F_value_threshold": sc(-20.0)}


LAYOUTS = [p for k in range(3) for p in itertools.permutations(("cml_id", "channel_id", "time"))] + [
    ("cml_id", "time"), ("time", "cml_id"), ("time",), ("cml_id", "time"), ("time", "cml_id")]
CO = {"cml_id": ["lk2", "lk10", "a"], "channel_id": ["c2", "c1"], "time": np.datetime64("2020-01-01", "ns") + np.arange(9) * np.timedelta64(60, "s")}


class Setup:
    def __init__(self, seed=5, nt=9):
        self.rng = np.random.RandomState(seed)
        self.nt = nt
        self.vals = {f: values(f, self.rng, 3, 2, nt) for f in FN}
        self.cache = {}

    def arg(self, f, name, layout, mode, salt, sh="none"):
        d = self.arg0(f, name, layout, mode, salt)
        if sh != "none" and isinstance(d, xr.DataArray) and sh in d.dims and name != FN[f][1][0] and (hash_(name) + salt) % 2:
            # labels in another order than those of the other arguments
            return d.isel({sh: np.roll(np.arange(d.sizes[sh]), 1 + salt % 2)[:: 1 if salt % 4 else -1]})
        return d

    def arg0(self, f, name, layout, mode, salt):
        kind, v = self.vals[f][name]
        if kind == "scalar":
            return v
        have = [d for d in ("cml_id", "channel_id") if d in layout]
        full = v
        if "channel_id" not in layout:
            full = full[:, 0]
        if "cml_id" not in layout:
            full = full[0]
        if kind == "link":
            if not have or mode == 1:  # the same scalar for all
                return v[0, 0] if not isinstance(v[0, 0], np.str_) else str(v[0, 0])
            d = xr.DataArray(full, dims=have, coords={k: CO[k] for k in have})
            return d.transpose(*[k for k in layout if k in have])
        co = {k: CO[k] for k in have}
        co["time"] = np.datetime64("2020-01-01", "ns") + np.arange(self.nt) * np.timedelta64(60, "s")
        d = xr.DataArray(full, dims=have + ["time"], coords=co)
        order = list(layout)
        if salt % 3 == 1:  # arguments need not have the same order of dimensions
            order = order[::-1] if hash_(name) % 2 else order
        return d.transpose(*order)

    def alone(self, f, given, layout, mode, i, j):
        """the call with the plain series of link i, channel j"""
        key = (f, given, mode, i, j)
        if key in self.cache:
            return self.cache[key]
        fn, names = FN[f]
        kw = {}
        for n in names:
            if n not in given:
                continue
            kind, v = self.vals[f][n]
            if kind == "ts":
                kw[n] = v[i, j].copy()
            elif kind == "link":
                x = v[0, 0] if mode == 1 else v[i, j]
                kw[n] = str(x) if isinstance(x, np.str_) else x.item()
            else:
                kw[n] = v
        self.cache[key] = [np.asarray(x) for x in tup(fn(**kw))]
        return self.cache[key]


def hash_(s):
    return sum(map(ord, s))


def tup(x):
    return x if isinstance(x, tuple) else (x,)


def replay_setup(job):
    return Setup()


def run_case(st, f, np_, kw, layout, mode, salt, sh="none"):
    fn, names = FN[f]
    args = [st.arg(f, n, layout, mode, salt, sh) for n in names[:np_]] + ["surplus"] * max(0, np_ - len(names))
    kwargs = {k: (st.arg(f, k, layout, mode, salt, sh) if k in names else 1.0) for k in kw}
    return fn(*args, **kwargs)


def compare(st, f, given, layout, mode, res, sh="none"):
    """-> (labels ok, got series, wanted series)"""
    links = range(3) if "cml_id" in layout else [0]
    chans = range(2) if "channel_id" in layout else [0]
    labels, got, want = True, [], []
    outs = tup(res)
    if sh == "time":
        outs = tuple(o.sortby("time") for o in outs)
    for o in outs:
        if not isinstance(o, xr.DataArray) or set(o.dims) != set(layout):
            return False, [], [[0]]
        for d in ("cml_id", "channel_id"):
            if d in layout and (sorted(o[d].values) != sorted(CO[d]) if sh == d else list(o[d].values) != CO[d]):
                labels = False
        if o.sizes["time"] != st.nt or "time" not in o.coords:
            labels = False
    for i in links:
        for j in chans:
            w = st.alone(f, given, layout, mode, i, j)
            for k, o in enumerate(outs):
                sel = {}
                if "cml_id" in layout:
                    sel["cml_id"] = CO["cml_id"][i]
                if "channel_id" in layout:
                    sel["channel_id"] = CO["channel_id"][j]
                got.append(np.asarray(o.sel(sel).values, dtype=float))
                want.append(np.asarray(w[k], dtype=float))
                if np.asarray(w[k]).dtype.kind == "b" and o.dtype.kind != "b":  # a mask that cannot select any more
                    labels = False
    return labels, got, want


def replay(c, job, st):
    f, np_, kw = c["f"], c["np"], c["kw"]
    salt = hash_(f) + 3 * np_ + 5 * sum(hash_(k) for k in kw)
    msgs = []
    names = FN[f][1]
    given = frozenset(names[:np_]) | frozenset(kw)
    sh = c["sh"]
    for q in range(2 if c["ok"] and sh == "none" else 1):
        layout = LAYOUTS[(salt + 7 * q) % len(LAYOUTS)]
        if sh == "cml_id" and "cml_id" not in layout:
            layout = LAYOUTS[salt % 6]
        mode = (salt // 2 + q) % 2
        try:
            res = run_case(st, f, np_, kw, layout, mode, salt, sh)
            ex = ""
        except Exception as e:
            ex = f"{exc_name(e)}: {str(e)[:150]}"
        if not c["ok"]:
            if not ex:
                msgs.append(f"call with wrong arguments accepted ({layout})")
            continue
        if ex:
            if "rejected" not in c["out"]:
                msgs.append(f"raised {ex} ({layout}, mode {mode})")
            continue
        labels, got, want = compare(st, f, given, layout, mode, res, sh)
        if not labels:
            msgs.append(f"labels or dimensions wrong ({layout})")
        if len(got) != len(want) or any(not same(a, b) for a, b in zip(got, want)):
            msgs.append(f"values differ from processing the series alone ({layout}, mode {mode}, order of labels: {sh})")
    # also without labelled arrays the binding holds
    if not c["ok"]:
        try:
            fn = FN[f][0]
            pl = lambda n: (lambda kv: kv[1][0, 0] if kv[0] in ("ts", "link") else kv[1])(st.vals[f][n]) if n in names else 1.0
            fn(*[pl(n) for n in names[:np_]] + ["x"] * max(0, np_ - len(names)), **{k: pl(k) for k in kw})
            msgs.append("call with wrong arguments accepted (plain arrays)")
        except Exception:
            pass
    return msgs


def record(rng, job, tier, progress):
    fs = sorted(FN)
    for it in range(job["n"]):
        f = fs[rng.randint(len(fs))]
        nt = int(rng.choice([1, 2, 6, 25]))
        st = Setup(rng.randint(2**31), nt)
        names = FN[f][1]
        need = {"calc_R_from_A": ["A", "L_km", "f_GHz", "pol"], "calc_R_from_A_ab": ["A", "L_km", "a", "b"],
                "nearby_rainfall_retrival": names[:5] + ["f_GHz", "pol"], "nearby_rainfall_retrival_ab": names[:5] + ["a", "b"]}.get(f)
        if need is None:
            need = {"baseline_constant": names[:2], "waa_leijnse_2008_from_A_obs": names[:4], "waa_pastorek_2021_from_A_obs": names[:4]}.get(f, names)
        np_ = rng.randint(0, len(names) + 1)
        kw = [n for n in names[np_:] if n in need or rng.rand() < 0.5]
        rng.shuffle(kw)
        layout = LAYOUTS[rng.randint(len(LAYOUTS))]
        mode = rng.randint(2)
        sh = ["none", "none", "cml_id", "time"][rng.randint(4)] if nt > 1 else "none"
        e = {"f": f, "sh": sh, "np": int(np_), "kw": list(kw), "layout": list(layout), "exc": "", "labels": True, "got": [], "want": []}
        progress(e)
        try:
            res = run_case(st, f, np_, kw, layout, mode, rng.randint(9), sh)
            given = frozenset(names[:np_]) | frozenset(kw)
            labels, got, want = compare(st, f, given, layout, mode, res, sh)
            s = autoscale(*got, *want)
            e.update(labels=labels, got=[rnds(g, s) for g in got], want=[rnds(w, s) for w in want])
        except Exception as ex:
            e["exc"] = exc_name(ex)
            e["msg"] = str(ex)[:200]
        yield e
