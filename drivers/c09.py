import numpy as np
import xarray as xr
from venc import *
from pycomlink.processing.wet_dry.nearby_wetdry import calc_distance_between_cml_endpoints as dist
from pycomlink.spatial.helper import haversine

NAMES = ["a_to_all_a", "a_to_all_b", "b_to_all_a", "b_to_all_b"]
DEG = 6367 * np.pi / 180


def mats(ds, ids, n):
    """the four matrices by label in the order of ids; None if labels are wrong"""
    out = []
    for nm in NAMES:
        v = ds[nm]
        if set(v.dims) != {"cml_id1", "cml_id2"} or sorted(map(str, v.cml_id1.values)) != sorted(map(str, ids)) or v.shape != (n, n):
            return None
        out.append(np.array([[float(v.sel(cml_id1=i, cml_id2=j)) for j in ids] for i in ids]))
    return out


def replay(c, job, ctx):
    links = c["links"]
    n = len(links)
    msgs = []
    # near opposite points the haversine formula resolves about 0.1 m
    k = sum((l["a"] * 3 + l["b"] * 5) * (i + 1) for i, l in enumerate(links))
    a = np.array([float(l["a"]) for l in links])
    b = np.array([float(l["b"]) for l in links])
    const = float([0, 8, -120, 179][k % 4])
    mer = lambda v: (np.where(np.abs(v) > 90, 180 - v, v), np.where(np.abs(v) > 90, const + 180, const))
    cases = [(*mer(a), *mer(b), "meridian"),
             (np.zeros(n), a + 179 * (k % 2), np.zeros(n), b + 179 * (k % 2), "equator")]
    ids = [["x10", "x9", "b"], [7, 3, 5], ["C", "A", "B"]][k % 3][:n]
    for alat, alon, blat, blon, nm in cases:
        alon, blon = ((v + 180) % 360 - 180 for v in (alon, blon))
        args = [alat, alon, blat, blon]
        if k % 2:
            args = [list(v) for v in args]
        try:
            ds = dist(ids, *args)
        except Exception as e:
            msgs.append(f"raised {exc_name(e)} ({nm})")
            continue
        m = mats(ds, ids, n)
        if m is None:
            msgs.append(f"labels or shape ({nm})")
            continue
        for q in range(4):
            if not np.allclose(m[q], np.array(c["m"][q]) * DEG, rtol=1e-9, atol=1e-5 + 1e-3 * (np.array(c["m"][q]) > 170)):
                msgs.append(f"{NAMES[q]} differs from specification ({nm}): {m[q].tolist()}")
            if np.any(np.diag(m[q]) != 0):
                msgs.append(f"{NAMES[q]} diagonal not 0 ({nm})")
    return msgs


def ref(lon1, lat1, lon2, lat2):
    def vec(lon, lat):
        lon, lat = np.radians(lon), np.radians(lat)
        return np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])

    u, v = vec(lon1, lat1), vec(lon2, lat2)
    return 6367 * np.arctan2(np.linalg.norm(np.cross(u, v)), u @ v)


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        n = big(it, int(rng.choice([1, 2, 3, 5, 8])), 24)
        span = rng.choice([0.1, 3, 60])
        c = [rng.uniform(-60, 60), rng.uniform(-180, 180)]
        alat, blat = (np.clip(c[0] + rng.uniform(-span, span, n), -89.9, 89.9) for _ in range(2))
        alon, blon = ((c[1] + rng.uniform(-span, span, n) + 180) % 360 - 180 for _ in range(2))
        if rng.rand() < 0.3 and n > 1:  # shared sites
            alat[1], alon[1] = alat[0], alon[0]
        if rng.rand() < 0.2 and n > 1:
            blat[0], blon[0] = alat[1], alon[1]
        if rng.rand() < 0.2:  # opposite points on earth
            span = 60
            r = rng.randint(n)
            blat[r], blon[r] = -alat[0], alon[0] - 180 if alon[0] > 0 else alon[0] + 180
        ids = [int(i) for i in rng.permutation(50)[:n]] if rng.rand() < 0.4 else [f"cml_{i}" for i in rng.permutation(50)[:n]]
        form = rng.randint(4)
        P = [alat, alon, blat, blon]

        def call(order):
            i = [ids[k] for k in order]
            q = [v[order] for v in P]
            if form == 1:
                q = [list(v) for v in q]
            if form == 2:
                i = np.array(i)
            if form == 3:
                q = [xr.DataArray(v, dims="cml_id", coords={"cml_id": i}) for v in q]
                i = q[0].cml_id.values
            return dist(i, *q)

        # unit: 0.1 m for small networks, 10 m for large ones
        s = 1e4 if span < 60 else 100
        e = {"n": n, "exc": "", "labels": True, "d": [], "ref": [], "perm": [], "tol": 1, "pos": [v.tolist() for v in P], "ids": [str(i) for i in ids], "form": int(form)}
        progress(e)
        try:
            m = mats(call(np.arange(n)), ids, n)
            pm = mats(call(rng.permutation(n)), ids, n)
            if m is None or pm is None:
                e["labels"] = False
                m = m or [np.zeros((n, n))] * 4
                pm = pm or m
            pts = {"a": (alon, alat), "b": (blon, blat)}
            R = [np.array([[ref(pts[x][0][i], pts[x][1][i], pts[y][0][j], pts[y][1][j]) for j in range(n)] for i in range(n)])
                 for x, y in ("aa", "ab", "ba", "bb")]
            E = lambda M: [[[rnd(v, s) for v in r] for r in q] for q in M]
            e["d"], e["ref"], e["perm"] = E(m), E(R), E(pm)
            # the same numbers from the scalar function
            if n > 1:
                h = float(haversine(alon[0], alat[0], blon[1], blat[1]))
                if not abs(h - R[1][0, 1]) <= 1e-6 * max(1, h):
                    e["exc"] = f"haversine {h} instead of {R[1][0, 1]}"
        except Exception as ex:
            e["exc"] = exc_name(ex)
            e["msg"] = str(ex)[:200]
        yield e
