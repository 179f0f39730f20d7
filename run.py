#!/opt/venv/bin/python
"""Orchestrator of one check:  run.py <property> [--tier quick|thorough]

1. model checks the property's TLA+ model(s) with TLC; while exploring, TLC prints every
   behaviour to be replayed (inputs and the outputs/verdicts the specification demands),
2. replays those behaviours into the real code (/repo's working tree),
3. records executions of the real code on larger random inputs/histories/faults, and lets
   TLC validate the recorded traces against the same specification,
4. writes evidence/<property>.json; exit 0 = held, 1 = VIOLATION line, 2 = machinery error.
"""
import argparse
import importlib.util
import json
import os
import shutil
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import orch  # noqa: E402
from orch import MachineryError  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only", default="", help="model|replay|record (debugging)")
    args = ap.parse_args()
    prop, tier = args.prop, args.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    plan_file = os.path.join(HERE, "drivers", "plans.json")
    with open(plan_file) as f:
        plan = json.load(f)[prop]
    plan = {**plan, **plan.get(tier, {})}
    work = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    try:
        rc = run(prop, tier, seed, plan, work, t0, args)
    except MachineryError as e:
        print(f"ERROR: check machinery of {prop} failed: {e}", flush=True)
        rc = 2
    finally:
        if args.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, plan, work, t0, args):
    findings = orch.load_findings(prop)
    bads = []  # dicts: {where, clauses, case/event, ...}
    known = {}
    cov = {
        "states": 0,
        "transitions": 0,
        "traces_validated_against_impl": 0,
        "behaviours_replayed": 0,
        "recorded_executions_validated": 0,
        "models": [],
        "samples": [],
    }

    # --- 1. model checking and behaviour generation -------------------------------
    models = plan.get("models", []) if args.only in ("", "model", "replay") else []

    def do_model(m):
        return m, orch.run_tlc_model(m, work)

    # the models run side by side with the recording of executions
    rec_plan = plan.get("record", []) if args.only in ("", "record") else []
    workers = max(2, 8 // max(1, len(models)))
    for m in models:
        m.setdefault("workers", workers)
    pool = ThreadPoolExecutor(max_workers=16)
    model_futs = [pool.submit(do_model, m) for m in models]
    rec_futs = []
    for i, r in enumerate(rec_plan):
        for s in range(r.get("shards", 1)):
            rec_futs.append(
                pool.submit(orch.run_driver_record, prop, tier, seed, i, s, r, work)
            )
    emitted = []
    for fut in model_futs:
        m, res = fut.result()
        cov["states"] += res["distinct"]
        cov["transitions"] += res["generated"]
        cov["models"].append(
            {
                "module": m["module"],
                "cfg": m["cfg"],
                "distinct_states": res["distinct"],
                "states_generated": res["generated"],
                "depth": res["depth"],
                "behaviours_emitted": res["n_emitted"],
                "exhaustive": not m.get("simulate", False),
            }
        )
        if res["violation"]:
            raise MachineryError(
                f"the specification itself violates its invariants: {m['module']} "
                f"{res['violation']}"
            )
        if m.get("replay", True):
            emitted.append((m, res["emit_file"], res["n_emitted"]))

    # --- 2. replay of the generated behaviours --------------------------------------
    rep_futs = []
    for m, fn, n in emitted:
        if n == 0:
            raise MachineryError(f"{m['module']} emitted no behaviour")
        for mode in m.get("modes", [{"jit": 0}]):
            shards = mode.get("shards", m.get("shards", 4))
            for s in range(shards):
                rep_futs.append(
                    pool.submit(
                        orch.run_driver_replay, prop, tier, seed, fn, s, shards, mode, work
                    )
                )
    # --- 3. validation of recorded executions -----------------------------------------
    val_futs = []
    for fut in rec_futs:
        out = fut.result()
        if out.get("hang"):
            bads.append(out["hang"])
        for f, n in out["files"]:
            val_futs.append((f, n, out, pool.submit(orch.run_tlc_trace, out["trace"], f, work)))
    for fut in rep_futs:
        out = fut.result()
        if out.get("hang"):
            bads.append(out["hang"])
        cov["behaviours_replayed"] += out["n"]
        cov["samples"] += out["samples"]
        for b in out["bad"]:
            note(b, bads, known, findings)
    for f, n, out, fut in val_futs:
        res = fut.result()
        cov["recorded_executions_validated"] += n
        cov["states"] += res["distinct"]
        cov["transitions"] += res["generated"]
        lines = None
        for idx, clauses in res["bad"]:
            if lines is None:
                with open(f) as fh:
                    lines = fh.readlines()
            note(
                {
                    "where": f"recorded execution {os.path.basename(f)}:{idx}",
                    "clauses": clauses,
                    "event": json.loads(lines[idx - 1]),
                },
                bads,
                known,
                findings,
            )
        if len(cov["samples"]) < 6:
            with open(f) as fh:
                line = fh.readline()
            cov["samples"].append({"recorded_event": orch.shorten(json.loads(line))})
    cov["samples"] = cov["samples"][:6]
    cov["traces_validated_against_impl"] = (
        cov["behaviours_replayed"] + cov["recorded_executions_validated"]
    )
    cov["known_findings_seen"] = {k: v["n"] for k, v in known.items()}

    if not args.only and cov["traces_validated_against_impl"] == 0:
        raise MachineryError("nothing was validated against the implementation")

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": plan.get("level", "model_checking"),
        "coverage": cov,
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bads),
    }
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k, v in known.items():
        print(f"KNOWN-FINDING: property={prop} {v['text']} ({v['n']} cases)")
    if bads:
        rp = os.path.join(HERE, "evidence", f"{prop}.violation.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "n": len(bads), "violations": bads[:50]}, f, indent=1)
        print(f"VIOLATION property={prop} replay={rp}")
        for b in bads[:3]:
            print("  ", json.dumps(b)[:800])
        return 1
    print(
        f"OK property={prop} tier={tier} states={cov['states']} "
        f"replayed={cov['behaviours_replayed']} "
        f"recorded={cov['recorded_executions_validated']} wall={time.time()-t0:.1f}s"
    )
    return 0


def note(b, bads, known, findings):
    """Sort a failed case into known findings (every clause listed) and violations."""
    clauses = b["clauses"]
    if clauses and all(c in findings for c in clauses):
        for c in clauses:
            k = known.setdefault(c, {"n": 0, "text": findings[c]})
            k["n"] += 1
        return
    bads.append(b)


if __name__ == "__main__":
    main()
