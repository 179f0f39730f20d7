import gc
import hashlib
import io
import os
import pathlib
import shutil
import tempfile
import h5py
import numpy as np
from venc import *
from pycomlink.io import examples
from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray

FILES = {"one": "one_cml.h5", "many": "75_cmls.h5", "minmax": "75_cmls_min_max.h5"}
GET = {"one": examples.get_one_cml, "many": examples.get_75_cmls, "minmax": examples.get_75_cmls_min_max}
HERE = os.path.join(os.path.dirname(os.path.realpath(examples.__file__)), "example_data")
SITES = ["site_a_latitude", "site_a_longitude", "site_b_latitude", "site_b_longitude"]


def md5(fn):
    with open(fn, "rb") as f:
        return hashlib.md5(f.read()).hexdigest()


def known(fn):
    """What the file holds, read without the package."""
    out = []
    with open(fn, "rb") as f:  # through memory: no lock on the file
        b = io.BytesIO(f.read())
    with h5py.File(b, "r") as h:
        for g in h.values():
            out.append({"id": str(g.attrs["cml_id"]), "sites": [float(g.attrs[k]) for k in SITES],
                        "ch": {n: {"f": float(c.attrs["frequency"]) / 1e9, "pol": str(c.attrs["polarization"]), "t": np.array(c["time"][:], dtype=float),
                                   "lev": {{"t": "tsl", "r": "rsl"}[k[0]] + k[2:]: np.array(c[k][:], dtype=float) for k in c if k != "time"}} for n, c in g.items()}})
    return out


SHIPPED = {k: (known(os.path.join(HERE, f)), md5(os.path.join(HERE, f))) for k, f in FILES.items()}
BYTES = {f: open(os.path.join(HERE, f), "rb").read() for f in FILES.values()}


def restore():
    """Undo what code under test did to the example files."""
    for f, b in BYTES.items():
        with open(os.path.join(HERE, f), "rb") as g:
            changed = g.read() != b
        if changed:
            with open(os.path.join(HERE, f), "wb") as g:
                g.write(b)


def cell(d, v, j):
    """Values of a variable for the j-th channel."""
    q = d.variables[v]
    i = q.dims.index("channel_id") if "channel_id" in q.dims else None
    return q.values if i is None else np.take(q.values, j, axis=i)


def holds(res, want, ed):
    """The result is this content, edited ed times."""
    if len(res) != len(want):
        return False
    res = {str(d.variables["cml_id"].values): d for d in res}
    for w in want:
        d = res.get(w["id"])
        if d is None or [float(d.variables[k].values) for k in SITES] != w["sites"]:
            return False
        names = [str(v) for v in d.variables["channel_id"].values.ravel()]
        if sorted(names) != sorted(w["ch"]) or set(map(str, d.data_vars)) != set().union(*[c["lev"] for c in w["ch"].values()]):
            return False
        t = d.variables["time"].values.astype("datetime64[ns]").astype("i8")
        if (t[1:] <= t[:-1]).any() or len(t) != len(np.unique(np.concatenate([np.round(c["t"] * 1e6) for c in w["ch"].values()]))):
            return False
        for n, c in w["ch"].items():
            j, ct = names.index(n), (c["t"] * 1e9).astype("i8")
            if abs(float(cell(d, "frequency", j)) - c["f"]) > 1e-9 * c["f"] or str(cell(d, "polarization", j)) != c["pol"]:
                return False
            i = np.searchsorted(t, ct - 2000)
            if (i >= len(t)).any() or (np.abs(t[np.minimum(i, len(t) - 1)] - ct) > 2000).any():
                return False
            for v, a in c["lev"].items():
                if v not in d.variables:
                    return False
                g = cell(d, v, j)
                if g.ndim != 1 or not np.allclose(g[i], a + 1000 * ed, rtol=1e-12, atol=1e-9, equal_nan=True):
                    return False
    return True


def content(rng, v):
    """A file content: links, channels, times and levels drawn; kind by v."""
    n, mm = int(rng.randint(1, 4)), v % 3 == 2
    out = []
    for i in range(n):
        t = 1.5e9 + 60 * np.arange(rng.randint(1, 9)) + 3600 * v
        ch = {f"channel_{j + 1}": {"f": float(rng.randint(10, 40)), "pol": "VH"[rng.randint(2)], "t": t,
                                   "lev": {k: np.round(rng.rand(len(t)) * 50 + 100 * v, 1) for k in (("tx_min", "tx_max", "rx_min", "rx_max") if mm else ("tx", "rx"))}}
              for j in range(rng.randint(1, 3))}
        out.append({"id": f"link{i}", "sites": [47 + i / 8, 10 + v / 8, 47.25 + i / 8, 10.5], "ch": ch})
    return out


def write(fn, links):
    with h5py.File(fn, "w") as h:
        for L in links:
            g = h.create_group(L["id"])
            g.attrs["cml_id"] = L["id"]
            for k, v in zip(SITES, L["sites"]):
                g.attrs[k] = v
            for n, c in L["ch"].items():
                q = g.create_group(n)
                q.attrs["frequency"] = c["f"] * 1e9
                q.attrs["polarization"] = c["pol"]
                q["time"] = c["t"]
                for k, a in c["lev"].items():
                    q[k] = a


def edit(r):
    for d in r:
        for v in d.data_vars:
            a = d[v].values
            a += 1000


gc.freeze()


def history(seed, disk, steps):
    top = tempfile.mkdtemp(dir=os.environ["TMPDIR"])
    os.mkdir(top + "/d")
    os.chdir(top)
    fn = top + "/d/f.h5"
    raw, want, sums = {}, {k: v[0] for k, v in SHIPPED.items()}, {}

    def put(v):
        if v not in raw:
            raw[v] = content(np.random.RandomState(seed * 31 + v), v)
        write(fn, raw[v])
        want[str(v)] = known(fn)
        sums[md5(fn)] = v

    try:
        if disk:
            put(disk)
        res, own, of, eds, out = [], [], [], [], []
        for n, x in enumerate(steps):
            op, exc, before = x["op"], "", len(res)
            names = [fn, os.path.relpath(fn), pathlib.Path(fn)]
            try:
                if op == "read":
                    r = read_cmlh5_file_to_xarray(names[(seed + n) % 3])
                    res.append(list(r)), own.append(r), of.append("?"), eds.append(0)
                elif op == "example":
                    r = GET[x["f"]]()
                    own.append(r), of.append("?"), eds.append(0)
                    res.append([r] if x["f"] == "one" else list(r))
                    p = examples.get_example_data_path()
                    if not (os.path.isabs(p) and all(os.path.isfile(os.path.join(p, f)) for f in FILES.values())):
                        exc = "path of the example data"
                elif op == "write":
                    if (seed + n) % 2 and os.path.exists(fn):
                        os.unlink(fn)
                    put(x["v"])
                elif op == "delete":
                    os.unlink(fn)
                elif op == "cd":
                    os.chdir(top + "/d" if os.getcwd() == top else top)
                elif x["k"] <= len(res):
                    edit(res[x["k"] - 1])
                    eds[x["k"] - 1] += 1
            except Exception as e:
                exc = f"{type(e).__name__}: {str(e)[:200]}"
            gc.collect()
            now = []
            for i, r in enumerate(res):
                if i >= before:  # a new result: find out what it is
                    of[i] = next((k for k in want if holds(r, want[k], 0)), "?")
                    now.append({"of": of[i], "ed": 0})
                else:
                    now.append({"of": of[i], "ed": eds[i]} if of[i] in want and holds(r, want[of[i]], eds[i]) else {"of": "?", "ed": 0})
            out.append({"exc": exc, "res": now, "disk": sums.get(md5(fn), -1) if os.path.exists(fn) else 0,
                        "open": any(str(os.readlink(f"/proc/self/fd/{k}")).startswith((top + "/", HERE)) for k in os.listdir("/proc/self/fd") if os.path.islink(f"/proc/self/fd/{k}")),
                        "kept": True})
        out[-1]["kept"] = all(md5(os.path.join(HERE, f)) == SHIPPED[k][1] for k, f in FILES.items())
        return out
    finally:
        restore()
        os.chdir(os.environ["TMPDIR"])
        shutil.rmtree(top, ignore_errors=True)


def replay(c, job, ctx):
    steps = [x["x"] for x in c["steps"]]
    seed = sum(len(str(x)) * (i + 1) for i, x in enumerate(steps)) + c["disk"]
    m = []
    for i, (x, o) in enumerate(zip(c["steps"], history(seed, c["disk"], steps))):
        at = f"step {i + 1} {x['x']}: "
        if bool(o["exc"]) != x["exc"]:
            m.append(at + (o["exc"] or "missing file read"))
        elif o["res"] != x["res"]:
            m.append(at + f"results hold {o['res']} instead of {x['res']}")
        if o["disk"] != x["disk"]:
            m.append(at + f"the file holds {o['disk']} instead of {x['disk']}")
        if o["open"]:
            m.append(at + "the file is left open")
        if not o["kept"]:
            m.append("an example file changed")
    return m


def record(rng, job, tier, progress):
    pick = lambda *a: a[rng.randint(len(a))]
    for it in range(job["n"]):
        disk, steps, n = int(rng.randint(0, 8)), [], 0
        now = disk
        for _ in range(rng.randint(2, 13)):
            op = pick("read", "read", "read", "write", "edit", "edit", "delete", "cd", "example")
            if op == "delete" and not now or op == "edit" and not n:
                op = "write"
            x = {"op": op}
            if op == "read":
                n += now > 0
            elif op == "write":
                x["v"] = now = int(rng.randint(1, 8))
            elif op == "delete":
                now = 0
            elif op == "edit":
                x["k"] = int(rng.randint(1, n + 1))
            elif op == "example":
                x["f"] = pick("one", "many", "minmax", "one")
                n += 1
            steps.append(x)
        seed = int(rng.randint(10**6))
        progress({"seed": seed, "disk": disk, "steps": steps})
        out = history(seed, disk, steps)
        yield {"seed": seed, "disk": disk, "steps": [dict(x, **dict(o, exc=bool(o["exc"]), detail=o["exc"])) for x, o in zip(steps, out)], "exc": ""}
