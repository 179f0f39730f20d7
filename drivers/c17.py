import numpy as np
import pandas as pd
from venc import *
from pycomlink.util.temporal import aggregate_df_onto_DatetimeIndex as agg

BASE = pd.Timestamp("2020-03-28 22:00", tz="utc")  # a day before the change to summer time in Europe
ZONES = ["UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata"]


def index(ts, tz, unit=7):
    return pd.DatetimeIndex([BASE + pd.Timedelta(minutes=unit * int(t)) for t in ts], tz="utc", name="time").tz_convert(tz)


def call(ts, ni, label, h, unit=7, dflt=False):
    """The result's instants and the sample sets per instant."""
    dtz, ntz, mode = ZONES[h % 4], ZONES[(h // 4) % 4], (h // 16) % 3
    df = pd.DataFrame({"v": np.array([2 ** i for i in range(len(ts))], dtype="int64"),
                       "w": np.arange(len(ts)) * 1.5 - 3}, index=index(ts, dtz, unit))
    idx = index(ni, ntz, unit)
    kw = {}
    if mode == 0:
        # naive new index in the given zone (default utc)
        if h % 2:
            idx = idx.tz_convert("utc").tz_localize(None)
        else:
            idx = idx.tz_localize(None)
            kw["new_index_tz"] = ntz
    elif mode == 1:
        kw["new_index_tz"] = "Asia/Tokyo"  # ignored for an index with zone
    if not (dflt and label == "right"):
        kw["label"] = label
    s0, i0 = snapshot(df), idx.copy()
    arg = df.v if h % 5 == 0 else df
    r = agg(arg, idx, ["sum", np.sum][h % 2], **kw)
    inst = [(t - BASE) / pd.Timedelta(minutes=unit) if t.tzinfo is not None else None for t in r.index]
    if any(x is None for x in inst) or r.index.tz is None:
        return None, None, False, True, True
    groups = [[i + 1 for i in range(len(ts)) if (int(v) >> i) & 1] for v in r["v"]]
    cols = list(r.columns) == (["v"] if h % 5 == 0 else ["v", "w"]) and r.index.name == "time"
    if cols and h % 5 and len(ts) and len(r):
        for m, f in ((np.mean, np.mean), ("max", np.max), (lambda x: x.iloc[0] + len(x), lambda x: x[0] + len(x))):
            q = agg(df, idx, m, **kw)
            cols = cols and list(q.index) == list(r.index) and same(q["w"].values, [f(df.w.values[np.array(g) - 1]) for g in groups])
    if cols and h % 2:  # missing values in the data are samples, too
        x = df[["w"]].copy()
        x.loc[(df.v.values * 7 % 11) < 6, "w"] = np.nan
        x.iloc[: h % 3] = np.nan
        y0 = snapshot(x)
        for m, f in (("max", lambda v: np.nan if np.isnan(v).all() else np.nanmax(v)), ("count", lambda v: (~np.isnan(v)).sum())):
            q = agg(x, idx, m, **kw)
            cols = cols and list(q.index) == list(r.index) and same(q["w"].values.astype(float), [float(f(x.w.values[np.array(g, dtype=int) - 1])) for g in groups])
        cols = cols and unchanged(y0, x)
    return [enc(x) for x in inst], groups, True, unchanged(s0, df) and i0.equals(idx), bool(cols)


def replay(c, job, ctx):
    h = sum((i + 1) * (t + 2) for i, t in enumerate(c["ts"])) + 3 * sum(c["ni"])
    ts = c["ts"]
    order = list(range(len(ts)))
    if h % 7 == 0:
        order = order[::-1]
    try:
        idx, groups, tz, unch, cols = call([ts[i] for i in order], c["ni"], c["label"], h)
    except Exception as e:
        return [f"raised {exc_name(e)}: {str(e)[:200]}"]
    m = []
    if not tz:
        return ["result without time zone"]
    if idx != c["idx"]:
        m.append(f"time stamps {idx}")
    elif [sorted(order[i - 1] + 1 for i in g) for g in groups] != [sorted(g) for g in c["groups"]]:
        m.append(f"samples {groups}")
    if not unch:
        m.append("input changed")
    if not cols:
        m.append("columns or other aggregates")
    return m


def record(rng, job, tier, progress):
    for it in range(job["n"]):
        n = big(it, int(rng.choice([1, 3, 10, 40])), 60)
        span = big(it, int(rng.choice([5, 30, 400])), 400)
        ts = rng.randint(0, span, n)
        if rng.rand() < .8:
            ts = np.sort(ts)
        ni = np.unique(rng.randint(-span // 3, span + span // 3, int(rng.choice([1, 2, 6, 20])))) if rng.rand() < .5 \
            else np.arange(rng.randint(-5, 5), span + rng.randint(-5, 5) + 6, rng.randint(1, max(2, span // 4)))
        label = str(rng.choice(["left", "right"]))
        e = {"ts": [int(t) for t in ts], "ni": [int(t) for t in ni], "label": label, "idx": [], "groups": [], "tzok": True,
             "unchanged": True, "cols": True, "exc": ""}
        progress(e)
        # unit 15 min: the naive stamps of other zones stay unambiguous in spring
        try:
            h = int(rng.randint(48))
            if (h // 16) == 0 and h % 2 == 0 and (h // 4) % 4 == 1 and (ni < 0).any():
                h += 16
            idx, groups, tz, e["unchanged"], e["cols"] = call(ts, ni, label, h, unit=15, dflt=True)
            e["tzok"] = bool(tz)
            if tz:
                e["idx"], e["groups"] = idx, groups
        except Exception as ex:
            e["exc"] = exc_name(ex)
            e["msg"] = str(ex)[:200]
        yield e
