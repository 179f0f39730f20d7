"""Runs inside /opt/venv's Python with /repo on PYTHONPATH: drives the real code."""
import argparse
import importlib
import json
import os
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")


# what the drivers' handling of a malformed result (wrong type, shape, labels) raises
UNUSABLE = (ValueError, TypeError, KeyError, IndexError, AttributeError, AssertionError, RuntimeError, ArithmeticError,
            FileNotFoundError, IsADirectoryError, NotADirectoryError)


def unusable(e, prog_file, out):
    if not isinstance(e, UNUSABLE):
        raise e
    case = None
    if os.path.exists(prog_file):
        with open(prog_file) as g:
            case = json.load(g)
    with open(out + ".unusable", "w") as g:
        json.dump({"where": "recording", "clauses": [f"unusable result, {type(e).__name__}: {str(e)[:200]}"],
                   "case": case, "trace": traceback.format_exc()[-1500:]}, g)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("what")
    ap.add_argument("--in", dest="inp")
    ap.add_argument("--out")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--shards", type=int, default=1)
    ap.add_argument("--tier")
    ap.add_argument("--job")
    a = ap.parse_args()
    job = json.loads(a.job)
    import numpy as np

    np.seterr(all="ignore")
    import pycomlink

    want = os.path.realpath(os.environ["VERIF_REPO"])
    got = os.path.realpath(pycomlink.__file__)
    if not got.startswith(want + os.sep):
        sys.exit(f"pycomlink imported from {got}, expected {want}")
    mod = importlib.import_module(job.get("module", a.prop.lower()))
    prog_file = os.environ["VERIF_PROGRESS"]
    if a.what == "record":
        # one stream per (seed, shard, job)
        rng = np.random.RandomState(
            (a.seed * 1000003 + a.shard * 7919 + sum(map(ord, a.job)) * 31) % (2**31)
        )
        with open(a.out, "w") as f:

            def progress(x):
                with open(prog_file, "w") as g:
                    json.dump(x, g)

            try:
                for ev in mod.record(rng, job, a.tier, progress):
                    f.write(json.dumps(ev) + "\n")
                    f.flush()
            except Exception as e:
                unusable(e, prog_file, a.out)
    else:
        bad, n, samples = [], 0, []
        try:
            ctx = mod.replay_setup(job) if hasattr(mod, "replay_setup") else None
        except UNUSABLE as e:
            tb = traceback.format_exc()
            with open(a.out, "w") as f:
                json.dump({"n": 0, "bad": [{"where": f"setup of replay {job}", "case": {},
                                            "clauses": [f"unusable result, {type(e).__name__}: {str(e)[:200]}", tb[-1000:]]}], "samples": []}, f)
            return
        with open(a.inp) as f:
            for i, line in enumerate(f):
                if i % a.shards != a.shard:
                    continue
                case = json.loads(line)
                with open(prog_file, "w") as g:
                    g.write(line)
                try:
                    msgs = mod.replay(case, job, ctx)
                except Exception as e:
                    if not isinstance(e, UNUSABLE):
                        raise
                    msgs = [f"unusable result, {type(e).__name__}: {str(e)[:200]}"]
                n += 1
                if msgs:
                    if len(bad) < 200:
                        bad.append({"where": f"replay {i} {job}", "clauses": msgs, "case": case})
                elif len(samples) < 1 and n > 7:
                    samples.append({"replayed_behaviour": case})
        with open(a.out, "w") as f:
            json.dump({"n": n, "bad": bad, "samples": samples}, f)


if __name__ == "__main__":
    main()
