"""Encoding of the code's numbers for the specification, and small generators."""
import numpy as np
import pandas as pd
import xarray as xr

NAN, PINF, NINF, INEXACT, HUGE = (1000000001 + i for i in range(5))
nan = float("nan")


def enc(x, scale=1, tol=1e-6):
    """Scaled integer of x; INEXACT if x is not (within tol, in units) on the grid."""
    try:
        x = float(x)
    except (TypeError, ValueError):
        return INEXACT
    if x != x:
        return NAN
    if x == float("inf"):
        return PINF
    if x == float("-inf"):
        return NINF
    y = x * scale
    if abs(y) >= 9e8:
        return HUGE
    r = round(y)
    if tol is not None and abs(y - r) > tol * max(1.0, abs(y) * 1e-3):
        return INEXACT
    return int(r)


def encs(xs, scale=1, tol=1e-6):
    return [enc(v, scale, tol) for v in np.asarray(xs, dtype=float).ravel()]


def rnd(x, scale):
    """Scaled and rounded, for comparisons with tolerance."""
    return enc(x, scale, None)


def rnds(xs, scale):
    return [rnd(v, scale) for v in np.asarray(xs, dtype=float).ravel()]


def dec(v, scale=1):
    if v == NAN:
        return nan
    if v == PINF:
        return float("inf")
    if v == NINF:
        return float("-inf")
    return v / scale


def decs(vs, scale=1):
    return np.array([dec(v, scale) for v in vs], dtype=float)


def exc_name(e):
    return type(e).__name__


def same(a, b, rtol=1e-9, atol=1e-12):
    """Equal shape and values, NaN equals NaN."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype == object or b.dtype == object or a.dtype.kind in "US":
        return bool(np.all(a == b))
    return bool(np.allclose(a.astype(complex), b.astype(complex), rtol=rtol, atol=atol, equal_nan=True))


def layout(h, *g):
    """the same grids in other memory orders"""
    k = h % 5
    if k == 1:
        return tuple(np.asfortranarray(v) for v in g)
    if k == 2:
        return g[0], np.asfortranarray(g[1])
    if k == 3:  # every second element of a larger array, reversed storage
        out = []
        for v in g:
            b = np.full((2 * v.shape[0], v.shape[1]), 7.5)
            b[::-2] = v
            out.append(b[::-2])
        return tuple(out)
    return g


def big(it, normal, large, every=100):
    """now and then a much larger size than the usual ones"""
    return large if it % every == 37 else normal


def runs(rng, n, states, mean_len=4.0):
    """A sequence of n states made of runs (geometric run lengths)."""
    out = []
    cur = states[rng.randint(len(states))]
    while len(out) < n:
        k = 1 + rng.geometric(1.0 / mean_len) if rng.rand() < 0.8 else 1
        out += [cur] * k
        nxt = states[rng.randint(len(states))]
        cur = nxt
    return out[:n]


def snapshot(x):
    """Deep copy of an argument, to check that it has not been modified."""
    if isinstance(x, (xr.DataArray, xr.Dataset)):
        return x.copy(deep=True)
    if isinstance(x, (pd.Series, pd.DataFrame, pd.Index)):
        return x.copy(deep=True)
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(snapshot(v) for v in x)
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    return x


def unchanged(x, y):
    if isinstance(x, (xr.DataArray, xr.Dataset)):
        return x.identical(y)
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return x.equals(y) and x.index.equals(y.index) and list(np.atleast_1d(getattr(x, "columns", []))) == list(np.atleast_1d(getattr(y, "columns", [])))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.shape == y.shape and all(a is b or a == b for a, b in zip(x.ravel(), y.ravel()))
        return x.dtype == y.dtype and x.shape == y.shape and x.tobytes() == y.tobytes()
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(unchanged(a, b) for a, b in zip(x, y))
    if isinstance(x, dict):
        return list(x) == list(y) and all(unchanged(x[k], y[k]) for k in x)
    if isinstance(x, float) and x != x:
        return y != y
    return x == y


def autoscale(*arrs, top=4e8, most=1e9):
    """Power of ten that maps the largest finite magnitude below top."""
    m = 0.0
    for a in arrs:
        a = np.abs(np.asarray(a, dtype=float).ravel())
        a = a[np.isfinite(a)]
        if a.size:
            m = max(m, float(a.max()))
    if m == 0:
        return most
    return float(min(most, 10.0 ** np.floor(np.log10(top / m))))
