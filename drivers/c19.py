import os
import h5py
import numpy as np
from venc import *
from pycomlink.io.cmlh5_to_xarray import read_cmlh5_file_to_xarray

C = ["site_a_latitude", "site_a_longitude", "site_b_latitude", "site_b_longitude"]
T0 = 1475884800
N = [0]


def gc(lon1, lat1, lon2, lat2):
    """Great circle distance by the chord length, radius 6367 km."""
    v = []
    for lo, la in ((lon1, lat1), (lon2, lat2)):
        lo, la = np.radians([lo, la])
        v.append(np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)]))
    return 6367 * 2 * np.arcsin(min(1.0, np.linalg.norm(v[0] - v[1]) / 2))


def write(file, unit=60, scale=10.0, fs=1.0, cs=10.0, dt="f8", both=0):
    """both: channels that hold minimum and maximum levels besides the instantaneous ones"""
    N[0] += 1
    fn = os.path.join(os.environ["TMPDIR"], f"f{N[0]}.h5")
    with h5py.File(fn, "w") as h:
        h.attrs["file_format"] = "cmlH5"
        for L in file:
            g = h.create_group("grp_" + L["id"])
            g.attrs["cml_id"] = L["id"]
            for k, v in zip(C, L["coord"]):
                g.attrs[k] = v / cs
            for ch in L["ch"]:
                q = g.create_group(ch["name"])
                q.attrs["frequency"] = ch["f"] / fs * 1e9
                q.attrs["polarization"] = ch["pol"]
                q.attrs["channel_id"] = "x-" + ch["name"]
                s = np.array([[x[0], dec(x[1], scale), dec(x[2], scale)] for x in ch["s"]])
                tt = T0 + s[:, 0] * unit
                q["time"] = tt.astype("i8") if dt != "f8" and (tt == np.rint(tt)).all() else tt
                q["tx"], q["rx"] = s[:, 1].astype(dt), s[:, 2]
                if both and len(ch["name"] + L["id"]) % both == 0:
                    for k in ("tx", "rx"):
                        q[k + "_min"], q[k + "_max"] = q[k][:] - 7, q[k][:] + 9
    return fn


def read(fn, unit=60, scale=10.0, fs=1.0, cs=10.0):
    out = []
    for ds in read_cmlh5_file_to_xarray(fn):
        ts = (ds.time.values - np.datetime64(T0, "s")) / np.timedelta64(int(unit * 10**9), "ns")
        ts = np.round(ts, 5)  # seconds since epoch as double: 0.2 us
        o = np.argsort(ts, kind="stable")
        g = {"id": str(ds.cml_id.values), "times": encs(ts[o]), "coord": [enc(float(ds[k].values), cs) for k in C],
             "len": rnd(float(ds.length.values), 1e4), "ch": []}
        for name in ds.channel_id.values:
            d = ds.sel(channel_id=name)
            g["ch"].append({"name": str(name), "f": enc(float(d.frequency.values), fs, 1e-6), "pol": str(d.polarization.values),
                            "tsl": encs(d.tsl.transpose("time").values[o], scale), "rsl": encs(d.rsl.transpose("time").values[o], scale)})
        out.append(g)
    return out


def replay(c, job, ctx):
    fn = write(c["file"], both=sum(map(len, str(c["file"]))) % 3)
    try:
        got = read(fn)
    except Exception as e:
        return [f"raised {exc_name(e)}: {str(e)[:200]}"]
    finally:
        os.unlink(fn)
    m = []
    if sorted(g["id"] for g in got) != sorted(w["id"] for w in c["out"]):
        return [f"links {[g['id'] for g in got]}"]
    for w in c["out"]:
        g = [x for x in got if x["id"] == w["id"]][0]
        ln = gc(*(w["coord"][i] / 10 for i in (1, 0, 3, 2)))
        if abs(g.pop("len") - ln * 1e4) > 2:
            m.append("length")
        g["ch"].sort(key=lambda x: x["name"])
        w["ch"].sort(key=lambda x: x["name"])
        if g != w:
            m.append(f"link {w['id']}: read {g}")
    return m


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        nl = int(rng.choice([1, 2, 5, 12]))
        names = [["link%02d" % i, "Z-%d" % i, "%d_a" % i][rng.randint(3)] for i in rng.permutation(30)[:nl]]
        file = []
        same_t = rng.rand() < .5
        scale = float(rng.choice([8, 1e4]))  # eighths of a dB are exact in single precision, 0.0001 dB is not
        for i in range(nl):
            chs = []
            n = big(it, int(rng.choice([1, 2, 8, 60])), 400)
            base = np.sort(rng.permutation(big(it, 200, 500))[:n])
            for c in rng.permutation(4)[:int(rng.choice([1, 2, 4]))]:
                t = base if same_t else np.sort(rng.permutation(200)[:int(rng.choice([1, 3, 20]))])
                v = rng.randint(-900, 300, (len(t), 2)).astype(float) * (1 if scale == 8 else 1000) + rng.randint(0, 2 if scale == 8 else 1000, (len(t), 2))
                v[rng.rand(*v.shape) < rng.choice([0, .2])] = np.nan
                chs.append({"name": f"channel_{c}", "f": int(rng.choice([7000000, 18700000, 23125000, 38001250, 80127375])), "pol": str(rng.choice(["V", "H", "v", "h", "Vertical", "horizontal"])),
                            "s": [[int(a), enc(x), enc(y)] for a, (x, y) in zip(t, v)]})
            la, lo = rng.randint(-800000, 800000), rng.randint(-1700000, 1700000)
            w = int(rng.choice([3000, 300, 1]))
            co = [int(x) for x in (la, lo, la + rng.randint(-w, w + 1), lo + rng.randint(-w, w + 1))]
            file.append({"id": names[i], "coord": co, "ch": chs, "len": rnd(gc(*(co[k] / 1e4 for k in (1, 0, 3, 2))), 1e4)})
        unit = float(rng.choice([0.25, 0.5, 1, 60, 900]))
        e = {"file": file, "got": [], "exc": ""}
        progress(e)
        fn = write(file, unit, scale, fs=1e6, cs=1e4, dt=str(rng.choice(["f8", "f8", "f4"])) if scale == 8 else "f8", both=int(rng.choice([0, 0, 1, 2])))
        try:
            e["got"] = read(fn, unit, scale, fs=1e6, cs=1e4)
        except Exception as ex:
            e["exc"] = exc_name(ex)
            e["msg"] = str(ex)[:200]
        os.unlink(fn)
        yield e
