import numpy as np
import xarray as xr
from venc import *
from pycomlink.processing.k_R_relation import a_b

S = 1e8
F = {"ITU_2005": None, "ITU_2003": None}


def kw(t):
    return {} if t == "ITU_2005" else {"approx_type": t}


def replay(c, job, ctx):
    f = [v / 2 for v in c["f"]]
    p = c["p"]
    forms = [("array", lambda: a_b(np.array(f), np.array(p), **kw(c["t"]))),
             ("DataArray", lambda: a_b(xr.DataArray(f, dims="cml_id"), xr.DataArray(p, dims="cml_id"), approx_type=c["t"])),
             ("list", lambda: a_b(f_GHz=f, pol=p, approx_type=c["t"]))]
    if len(f) == 1 and len(p) == 1:
        forms += [("scalar", lambda: a_b(f[0], p[0], **kw(c["t"]))),
                  ("array, one pol", lambda: a_b(np.array(f), p[0], c["t"])),
                  ("0-d", lambda: a_b(xr.DataArray(f[0]), p[0], **kw(c["t"])))]
        if f[0] == int(f[0]):
            forms.append(("int", lambda: a_b(int(f[0]), p[0], **kw(c["t"]))))
    elif len(f) == 2 and len(p) == 2 and p[0] == p[1]:
        forms += [("array, one pol", lambda: a_b(np.array(f), p[0], c["t"])),
                  ("2-D", lambda: a_b(np.array([f]), p[0], c["t"]))]
    msgs = []
    for name, fn in forms:
        try:
            a, b = fn()
            ex = ""
        except Exception as e:
            ex = exc_name(e)
        if c["ok"]:
            if ex:
                msgs.append(f"raised {ex} ({name})")
            elif not (same(np.ravel(a), np.array(c["a"]) / S, rtol=1e-7, atol=1e-11) and same(np.ravel(b), np.array(c["b"]) / S, rtol=1e-7)):
                msgs.append(f"coefficients differ from table ({name}): {np.ravel(a)} {np.ravel(b)}")
        elif ex != "ValueError":
            msgs.append(f"not rejected with ValueError ({name}): {ex or 'accepted'}")
    return msgs


NODES = {
    "ITU_2005": [1 + .5 * i for i in range(11)] + list(range(7, 101)),
    "ITU_2003": [1, 2, 4, 6, 7, 8, 10, 12, 15, 20, 25, 30, 35, 40, 45, 50, 60, 70, 80, 90, 100],
}
POLS = ["H", "V", "h", "v", "horizontal", "vertical", "Horizontal", "Vertical"]


def record(rng, job, tier, progress):
    # the curves, complete
    for t in ("ITU_2005", "ITU_2003"):
        x = np.array(NODES[t], float)
        h = np.diff(x)
        grid = np.stack([x[:-1], x[:-1] + h / 3, x[:-1] + h / 2, x[:-1] + 2 * h / 3, x[1:]], axis=1)
        for pol in "HV":
            for ci, c in enumerate("ab"):
                e = {"k": "curve", "t": t, "pol": pol, "c": c, "y": [], "exc": ""}
                progress(e)
                try:
                    y = a_b(grid.ravel(), pol, approx_type=t)[ci].reshape(grid.shape)
                    e["y"] = [rnds(r, S) for r in y]
                except Exception as ex:
                    e["exc"] = exc_name(ex)
                yield e
    for it in range(job["n"]):
        t = ["ITU_2005", "ITU_2003"][rng.randint(2)]
        if rng.rand() < 0.15:
            n = int(rng.choice([1, 2, 5]))
            f = np.round(rng.uniform(1, 100, n), 2)
            p = np.array([POLS[i] for i in rng.randint(8, size=n)], dtype=object)
            what = rng.randint(5)
            tt = t
            if what == 0:
                f[rng.randint(n)] = rng.choice([0.99, 0, -5, 100.01, 5000])
            elif what == 1:
                p[rng.randint(n)] = rng.choice(["Hor", "VV", "x", "HORIZONTAL", "VERTICAL", "vert", " v", "V ", "HV", "", "vERTICAL", "hor", "vertical ", "Horizontal\n", "45"])
            elif what == 2:
                tt = ["ITU", "itu_2005", "ITU_2013", "2005", ""][rng.randint(5)]
            elif what == 3:
                p = np.array([p[0]] * (n + 1), dtype=object)
            else:
                f = np.append(f, 20.0)
            e = {"k": "reject", "t": tt, "f": f.tolist(), "p": list(p), "exc": ""}
            progress(e)
            try:
                if what in (0, 1, 2) and rng.rand() < 0.3:
                    a_b(xr.DataArray(f, dims="x"), xr.DataArray(p, dims="x"), tt)
                else:
                    a_b(f, p, approx_type=tt)
            except Exception as ex:
                e["exc"] = exc_name(ex)
            yield e
            continue
        n = int(rng.choice([1, 2, 3, 6, 12]))
        f = np.round(rng.uniform(1, 100, n), int(rng.choice([0, 1, 3])))
        f = np.clip(f, 1, 100)
        if rng.rand() < 0.4:
            f = np.array(NODES[t], float)[rng.randint(len(NODES[t]), size=n)]
        p = np.array([POLS[i] for i in rng.randint(8, size=n)], dtype=object)
        form = int(rng.randint(7))
        e = {"k": "elem", "t": t, "a": [], "b": [], "ra": [], "rb": [], "f2": [int(round(2 * v)) if abs(2 * v - round(2 * v)) < 1e-9 else 0 for v in f], "p": list(p), "shape": True, "exc": "", "form": form, "f": f.tolist()}
        progress(e)
        try:
            if form == 0:
                a, b = a_b(f, p, **kw(t))
            elif form == 1:
                a, b = a_b(f, p.astype(str), approx_type=t)
            elif form == 2:
                p[:] = p[0]
                a, b = a_b(f, p[0], **kw(t))
            elif form == 3:
                co = [f"l{i}" for i in rng.permutation(n)]
                d = xr.DataArray(f, dims="cml_id", coords={"cml_id": co, "q": ("cml_id", np.arange(n))})
                a, b = a_b(d, xr.DataArray(p, dims="cml_id", coords={"cml_id": co}), **kw(t))
                e["shape"] = all(isinstance(v, xr.DataArray) and v.dims == ("cml_id",) and list(v.cml_id.values) == co
                                 and list(v.q.values) == list(range(n)) for v in (a, b))
            elif form == 4:
                d = xr.DataArray(f.reshape(1, n), dims=("s", "cml_id"), coords={"cml_id": np.arange(n) * 2})
                p[:] = p[0]
                a, b = a_b(d, p[0], **kw(t))
                e["shape"] = all(v.dims == ("s", "cml_id") and list(v.cml_id.values) == list(np.arange(n) * 2) and v.shape == (1, n) for v in (a, b))
            elif form == 5:
                q = np.arange(2 * n)[::2]
                ff, pp = np.repeat(f, 2)[q], np.repeat(p, 2)[q]
                a, b = a_b(np.stack([ff, ff[::-1]]), np.stack([pp, pp[::-1]]), **kw(t))
                e["shape"] = a.shape == (2, n) and b.shape == (2, n)
                a, b = a[1][::-1], b[1][::-1]
            else:
                a, b = a_b(list(f), list(p), **kw(t))
            e["p"] = list(p)
            e["a"], e["b"] = rnds(a, S), rnds(b, S)
            ref = [a_b(float(fi), "V" if pi[0] in "vV" else "H", approx_type=t) for fi, pi in zip(f, p)]
            e["ra"] = [rnd(float(np.ravel(r[0])[0]), S) for r in ref]
            e["rb"] = [rnd(float(np.ravel(r[1])[0]), S) for r in ref]
        except Exception as ex:
            e["exc"] = exc_name(ex)
            e["msg"] = str(ex)[:200]
        yield e
