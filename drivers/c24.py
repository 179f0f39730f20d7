import contextlib
import io
import numpy as np
from matplotlib.mlab import specgram
from venc import *
from pycomlink.processing.wet_dry.stft import stft_classification, find_lowest_std_dev_period


def quiet(fun, /, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fun(*a, **k)


def flags(w):
    w = np.asarray(w)
    return [int(x) if x in (0, 1) else 7 for x in w.tolist()]


def replay(c, job, ctx):
    p = c["p"]
    P = np.array([decs(r) for r in p["P"]])
    n = P.shape[1] + p["nd"]
    k = p["a"] + p["b"] + p["thr"]
    if k % 3 == 0:
        P = P * np.array([[4.0], [0.5], [1.0]])[:len(P)]
    rsl = np.arange(n, dtype=float)
    kw = dict(t_dry_start=p["a"] - 1, t_dry_stop=p["b"], Pxx=P, f=np.array(p["f"], dtype=float))
    keep = snapshot([rsl, kw])
    try:
        wet, info = quiet(stft_classification, rsl, p["nd"] + 1, p["thr"] / 2, float(p["fd"]), **kw)
    except Exception as e:
        return [f"raised {exc_name(e)}: {str(e)[:200]}"]
    m = [] if unchanged([rsl, kw], keep) else ["input changed"]
    w = flags(wet)
    if len(w) != len(c["wet"]) or any(a != b for a, b in zip(w, c["wet"]) if b != 2):
        m.append(f"wet {w}")
    return m


def dft(x, W, win):
    """Power of all windows by the definition of the Fourier transform (any constant factor per frequency)."""
    k = np.arange(W // 2 + 1)[:, None] * np.arange(W)[None, :]
    E = np.exp(-2j * np.pi * (k % W) / W)
    return np.array([np.abs(E @ (win * x[j:j + W])) ** 2 for j in range(len(x) - W + 1)]).T


def args(rng):
    """Combinations of dry period and spectrogram arguments."""
    x = rng.randint(0, 9, 30).astype(float)
    a, b, L, pxx = (rng.rand() < .5 for _ in range(4))
    kw = {}
    if a:
        kw["t_dry_start"] = int(rng.choice([0, 5]))
    if b:
        kw["t_dry_stop"] = 20
    if L:
        kw["dry_length"] = 10
    f = True
    if pxx:
        Q, fr, _ = specgram(x, NFFT=8, Fs=1 / 60, noverlap=7, window=np.hamming(8))
        kw["Pxx"] = Q
        f = rng.rand() < .6
        if f:
            kw["f"] = fr
    return x, kw, bool((a, b, L) not in ((True, True, False), (False, False, True)) or not f)


def record(rng, job, tier, progress):
    for i in range(job["n"]):
        if i % 5 == 1:
            x, kw, rej = args(rng)
            e = {"k": "args", "kw": sorted(kw), "reject": rej, "exc": ""}
            progress(e)
            try:
                quiet(stft_classification, x, 8, 1.0, 1 / 600, **kw)
            except Exception as ex:
                e["exc"] = exc_name(ex)
            yield e
            continue
        n = int(rng.choice([20, 40, 90]))
        x = 100.0 + rng.randint(-2, 3, n) + np.array(runs(rng, n, [0, 0, 0, 3, 10], 6))
        if rng.rand() < .4:
            x[rng.rand(n) < .02] = np.nan
        if i % 5 == 2:
            L = int(rng.choice([2, 3, 7, 15]))
            if all(np.isnan(x[a:a + L]).any() for a in range(n - L + 1)):
                x[:L] = 5
            e = {"k": "dry", "x": encs(x), "L": L, "start": 0, "stop": 0, "exc": ""}
            progress(e)
            try:
                e["start"], e["stop"] = map(int, find_lowest_std_dev_period(x if rng.rand() < .5 else list(x), L))
            except Exception as ex:
                e["exc"] = exc_name(ex)
            yield e
            continue
        W = int(rng.choice([4, 5, 8, 13, 16]))
        mirror = W % 2 == 0 and rng.rand() < .25
        win = None if rng.rand() < .7 else np.ones(W)
        fs = float(rng.choice([1 / 60, 1.0, 1 / 300]))
        f = np.arange(W // 2 + 1) * fs / W
        fi = int(rng.randint(0, len(f)))
        fd = f[fi] * (1 + 1e-9) if rng.rand() < .7 else f[fi] + fs / W / 2
        P = dft(np.where(np.isnan(x), np.nan, x), W, np.hamming(W) if win is None else win)
        nd, st = W - 1, (W - 1) // 2
        L = 0
        if rng.rand() < .5:
            L = int(rng.randint(W + 2, n + 1))
            if all(np.isnan(x[a:a + L]).any() for a in range(n - L + 1)):
                L = 0
        if L:
            a, b = quiet(find_lowest_std_dev_period, x, L)
            kw = dict(dry_length=L)
        else:
            a = int(rng.randint(0, n - 1))
            b = int(rng.randint(a + 1, n + 1))
            kw = dict(t_dry_start=a, t_dry_stop=b)
        if mirror:
            b = min(b, n - W // 2)
            a = min(a, b - 1)
            kw, L = dict(t_dry_start=a, t_dry_stop=b), 0
        if win is not None:
            kw["window"] = win
        if fs != 1 / 60:
            kw["f_sampling"] = fs
        cols = [j for j in range(P.shape[1]) if a <= j + st < b and not np.isnan(P[0, j])]
        if cols:
            md = P[:, cols].mean(axis=1)
            if md.min() <= 0 or (md < 1e-9 * np.nanmax(P, axis=1)).any():
                continue
            Q = np.minimum(P / md[:, None] * 2000, 1e6)
        else:
            Q = np.where(np.isnan(P), np.nan, 1.0)
        thr = float(np.round(rng.choice([-.5, 0, .2, 1, 2]) + rng.rand() * .3, 3))
        e = {"k": "series", "x": encs(x), "P": [rnds(q, 1) for q in Q], "nd": nd, "f": list(range(len(f))), "fd": fi, "a": a + 1, "b": b, "L": L,
             "thr": rnd(thr, 1000), "wet": [], "wet2": [], "mirr": [bool(mirror and t >= n - W // 2) for t in range(n)], "exc": ""}
        progress(e)
        try:
            keep = x.copy()
            wet, info = quiet(stft_classification, x, W, thr, fd, mirror=mirror, **kw)
            e["wet"] = flags(wet)
            if mirror:
                e["wet2"] = e["wet"]
            else:
                Px, fx, _ = specgram(x, NFFT=W, Fs=fs, noverlap=W - 1, window=np.hamming(W) if win is None else win)
                wet2, _ = quiet(stft_classification, x, W, thr, fd, Pxx=Px, f=fx, **kw)
                e["wet2"] = flags(wet2)
            if not unchanged(x, keep):
                e["exc"] = "input changed"
        except Exception as ex:
            e["exc"] = exc_name(ex)
        yield e
