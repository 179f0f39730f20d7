"""Process plumbing: TLC runs, driver (real code) runs, known findings."""
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CP = "/opt/veriftools/tla/tla2tools.jar"


class MachineryError(Exception):
    pass


def _classpath():
    jars = [CP] + sorted(
        j for j in glob.glob("/opt/veriftools/tla/*.jar") if j != CP
    )
    return ":".join(jars)


def tlc(module, cfg, work, workers=4, env=None, extra=(), timeout=800, heap="3g"):
    meta = os.path.join(work, f"meta_{module}_{os.path.basename(cfg)}_{time.time_ns()}")
    os.makedirs(meta)
    cmd = [
        "java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
        "-cp", _classpath(), "tlc2.TLC",
        "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
        "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla"),
    ]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    outfile = os.path.join(meta, "out.txt")
    with open(outfile, "w") as fh:
        p = subprocess.Popen(cmd, stdout=fh, stderr=subprocess.STDOUT, env=e, cwd=meta,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            raise MachineryError(f"TLC timeout on {module} {cfg}")
    return rc, outfile


def parse_tlc(outfile):
    generated = distinct = depth = 0
    tail = []
    with open(outfile) as f:
        for line in f:
            if line.startswith('"@@'):
                continue
            tail.append(line)
            if len(tail) > 400:
                tail.pop(0)
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                generated, distinct = int(m[1]), int(m[2])
            m = re.match(r"The depth of the complete state graph search is (\d+)", line)
            if m:
                depth = int(m[1])
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                generated = distinct = int(m[1])
    return generated, distinct, depth, "".join(tail)


def run_tlc_model(m, work):
    # development only (many runs of the drivers against one model): keep the result of TLC in this folder
    cache = os.environ.get("VERIF_DEV_MODEL_CACHE")
    if not cache:
        return run_tlc_model_(m, work)
    fn = os.path.join(cache, f"{m['module']}_{os.path.basename(m['cfg'])}")
    if not os.path.exists(fn + ".json"):
        res = run_tlc_model_(m, work)
        shutil.copy(res["emit_file"], fn + ".emit")
        with open(fn + ".json", "w") as f:
            json.dump(res, f)
    with open(fn + ".json") as f:
        res = json.load(f)
    os.makedirs(os.path.join(work, m["module"] + m["cfg"]), exist_ok=True)
    res["emit_file"] = shutil.copy(fn + ".emit", os.path.join(work, m["module"] + m["cfg"], "out.emit"))
    return res


def run_tlc_model_(m, work):
    extra = list(m.get("extra", []))
    rc, outfile = tlc(m["module"], m["cfg"], work, workers=m.get("workers", 4), extra=extra,
                      heap=m.get("heap", "4g"), timeout=m.get("timeout", 3000))
    generated, distinct, depth, tail = parse_tlc(outfile)
    if rc not in (0, 12, 13):
        raise MachineryError(f"TLC exit {rc} on {m['module']}: {tail[-3000:]}")
    emit = outfile + ".emit"
    n = 0
    with open(outfile) as f, open(emit, "w") as g:
        for line in f:
            if line.startswith('"@@'):
                g.write(json.loads(line)[2:] + "\n")
                n += 1
    os.unlink(outfile)
    return {
        "generated": generated, "distinct": distinct, "depth": depth,
        "emit_file": emit, "n_emitted": n,
        "violation": tail[-3000:] if rc else None,
    }


# an event with which the specification cannot be evaluated at all (numbers beyond 32 bit, missing entries):
# never the case for the outputs the specification allows, so the event does not conform
EVAL_ERROR = re.compile(r"Overflow when computing|Attempted to |out of bounds|not in the domain|nonexistent field|does not have a field")


def run_tlc_trace(module, trace, work):
    bad, generated, distinct, start, part = {}, 0, 0, 0, trace
    with open(trace) as f:
        lines = f.readlines()
    for attempt in range(12):
        rc, outfile = tlc(module, "Trace.cfg", work, workers=1, env={"TRACE": part}, heap="3g", timeout=3000)
        g, d, depth, tail = parse_tlc(outfile)
        generated += g
        distinct += d
        done, last, err, nb = None, None, None, 0
        with open(outfile, errors="replace") as f:
            for line in f:
                if line.startswith('"@@'):
                    r = json.loads(json.loads(line)[2:])
                    if "done" in r:
                        done = r["done"]
                    else:
                        bad[start + r["l"]] = sorted(r["bad"])
                        nb += 1
                elif line.startswith("/\\ l = "):
                    last = int(line.split("=")[1])
                elif err is None and EVAL_ERROR.search(line):
                    err = line.strip()[:160]
        os.unlink(outfile)
        if rc not in (0, 12):
            if err is None or last is None:
                raise MachineryError(f"TLC exit {rc} on {module} {trace}: {tail[-3000:]}")
            # the event after the last state
            bad[start + last] = ["not an output the specification can interpret: " + err]
            start += last
            if start >= len(lines) or attempt == 11:
                break
            part = trace + f".rest{attempt}"
            with open(part, "w") as f:
                f.writelines(lines[start:])
            continue
        if done != len(lines) - start:
            raise MachineryError(f"{module}: trace not consumed completely ({done} of {len(lines) - start}) {tail[-1500:]}")
        if (rc == 12) != bool(nb):
            raise MachineryError(f"{module}: verdict mismatch rc={rc} {sorted(bad.items())[:3]}")
        break
    return {"generated": generated, "distinct": distinct, "bad": sorted(bad.items())}


# ---------------------------------------------------------------- drivers (real code)
def driver_env(jit):
    e = {
        "HOME": "/nonexistent-verif-home",
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "LANG": "C.UTF-8",
        "PYTHONPATH": f"{HERE}/lib/site:{REPO}:{HERE}/lib:{HERE}/drivers",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "TF_CPP_MIN_LOG_LEVEL": "3",
        "CUDA_VISIBLE_DEVICES": "",
        "MPLBACKEND": "Agg",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1",
        "TQDM_DISABLE": "1",
        "VERIF_REPO": REPO,
    }
    if not jit:
        e["NUMBA_DISABLE_JIT"] = "1"
    return e


def run_driver(prop, args, jit, work, name, timeout):
    scratch = os.path.join(work, "drv_" + name)
    os.makedirs(scratch, exist_ok=True)
    env = driver_env(jit)
    env["HOME"] = scratch
    env["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    env["TMPDIR"] = scratch
    progress = os.path.join(scratch, "progress.json")
    env["VERIF_PROGRESS"] = progress
    cmd = [PY, os.path.join(HERE, "lib", "driver_main.py"), prop] + args
    with open(os.path.join(scratch, "log.txt"), "w") as log:
        p = subprocess.Popen(cmd, cwd=scratch, env=env, stdout=log, stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    if rc == 0:
        return None
    log = open(os.path.join(scratch, "log.txt"), errors="replace").read()[-3000:]
    prog = None
    if os.path.exists(progress):
        try:
            prog = json.load(open(progress))
        except ValueError:
            prog = open(progress).read()[-2000:]
    if rc == "timeout" or (isinstance(rc, int) and rc < 0):
        # the code under test hung (or took the process down) on this case
        return {
            "where": f"driver {name}",
            "clauses": ["hang" if rc == "timeout" else f"process died ({rc})"],
            "case": prog,
            "log": log[-1000:],
        }
    raise MachineryError(f"driver {prop} {name} exit {rc}: {log}")


def run_driver_record(prop, tier, seed, idx, shard, r, work):
    name = f"rec{idx}_{shard}"
    out = os.path.join(work, name + ".ndjson")
    args = ["record", "--out", out, "--seed", str(seed), "--shard", str(shard),
            "--tier", tier, "--job", json.dumps(r)]
    hang = run_driver(prop, args, r.get("jit", 0), work, name, r.get("timeout", 600))
    files = []
    if not hang and os.path.exists(out + ".unusable"):
        hang = json.load(open(out + ".unusable"))
    if os.path.exists(out):
        with open(out) as f:
            lines = [x for x in f if x.endswith("\n")]
        chunk = r.get("chunk", 2000)
        for c in range(0, len(lines), chunk):
            fn = f"{out}.{c // chunk}"
            with open(fn, "w") as g:
                g.writelines(lines[c:c + chunk])
            files.append((fn, len(lines[c:c + chunk])))
    if not hang and not files:
        raise MachineryError(f"driver {prop} {name} recorded nothing")
    return {"hang": hang, "files": files, "trace": r["trace"]}


def run_driver_replay(prop, tier, seed, fn, shard, shards, mode, work):
    name = f"rep_{os.path.basename(os.path.dirname(fn))[-40:]}_{shard}_{mode.get('name', mode.get('jit', 0))}"
    out = os.path.join(work, name + ".out")
    args = ["replay", "--in", fn, "--out", out, "--seed", str(seed), "--shard", str(shard),
            "--shards", str(shards), "--tier", tier, "--job", json.dumps(mode)]
    hang = run_driver(prop, args, mode.get("jit", 0), work, name, mode.get("timeout", 700))
    res = {"n": 0, "bad": [], "samples": []}
    if os.path.exists(out):
        res = json.load(open(out))
    elif not hang:
        raise MachineryError(f"driver {name} gave no result")
    res["hang"] = hang
    return res


def shorten(x, n=40):
    if isinstance(x, list):
        return [shorten(v, n) for v in x[:n]] + (["..."] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    return x


def load_findings(prop):
    """known_findings.txt lines:  known: property=<id> clause=<label> <text>"""
    res = {}
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"known: property=(\S+) clause=(\S+) (.*)", line.strip())
            if m and m[1] == prop:
                res[m[2]] = m[3]
    return res
