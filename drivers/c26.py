import contextlib
import io
import types
import numpy as np
from venc import *
from pycomlink.spatial.coverage import calc_coverage_mask


def cml(s, u, ox, oy):
    return types.SimpleNamespace(metadata={"site_a_longitude": ox + s[0] * u, "site_a_latitude": oy + s[1] * u,
                                           "site_b_longitude": ox + s[2] * u, "site_b_latitude": oy + s[3] * u})


def mask(xs, ys, links, d, u=1.0, ox=0.0, oy=0.0, order=0):
    x, y = layout(order, np.array(xs) * u + ox, np.array(ys) * u + oy)
    kx, ky = x.copy(), y.copy()
    with contextlib.redirect_stderr(io.StringIO()):
        m = calc_coverage_mask([cml(s, u, ox, oy) for s in links], x, y, d * u)
    assert (x == kx).all() and (y == ky).all(), "grid changed"
    m = np.asarray(m)
    assert m.shape == x.shape, f"shape {m.shape}"
    return [[int(v) if v in (0, 1) else 7 for v in r] for r in m.tolist()]


def replay(c, job, ctx):
    k = len(c["links"]) + sum(map(sum, c["links"])) + c["d"]
    u, ox, oy = [(1.0, 0, 0), (0.01, 10.5, 48.25), (0.5, -3.0, 2.0)][k % 3]
    try:
        m = mask(c["xs"], c["ys"], c["links"], c["d"], u, ox, oy, k // 3)
    except AssertionError as e:
        return [str(e)]
    except Exception as e:
        return [f"raised {exc_name(e)}: {str(e)[:200]}"]
    ok = all(w == 2 or g == w for r, q in zip(m, c["mask"]) for g, w in zip(r, q))
    return [] if ok else [f"mask {m}"]


def record(rng, job, tier, progress):
    for i in range(job["n"]):
        ny, nx = int(rng.randint(1, 12)), int(rng.randint(1, 15))
        B = int(rng.choice([5, 20, 60]))
        if rng.rand() < .5:
            xs, ys = np.meshgrid(rng.permutation(B + 5)[:nx] if rng.rand() < .3 else np.sort(rng.randint(0, B, nx)), rng.randint(-3, B, ny))
        else:
            xs, ys = rng.randint(-3, B, (ny, nx)), rng.randint(-3, B, (ny, nx))
        L = big(i, int(rng.choice([0, 1, 2, 5, 15])), 60)
        links = [[int(v) for v in rng.randint(0, B, 4)] for _ in range(L)]
        if L and rng.rand() < .3:
            links[0] = [links[0][0], links[0][1], links[0][0], int(rng.randint(0, B))]
        if L > 1 and rng.rand() < .3:
            links[1] = list(links[0])
        e = {"xs": xs.tolist(), "ys": ys.tolist(), "links": links, "d": int(rng.choice([1, 2, 3, 7])), "mask": [], "mask2": [], "exc": ""}
        progress(e)
        u, ox, oy = [(1.0, 0, 0), (0.01, 10.5, 48.25), (0.1, -120.0, -35.0)][rng.randint(3)]
        try:
            e["mask"] = mask(e["xs"], e["ys"], links, e["d"], u, ox, oy, int(rng.randint(5)))
            e["mask2"] = mask(e["xs"], e["ys"], [links[j] for j in rng.permutation(L)], e["d"], u, ox, oy)
            # points exactly at the maximum distance are open and may flip with the order of the union
        except Exception as ex:
            e["exc"] = exc_name(ex)
        yield e
