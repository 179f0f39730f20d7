#!/usr/bin/env python3
"""Writes drivers/plans.json: what each check runs (models, replay modes, recordings)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REP = "generated behaviours replayed into the code, recorded executions validated against the spec by TLC"
J0, J1 = {"jit": 0}, {"jit": 1, "shards": 1}
J1T = {"jit": 1, "shards": 2}


def m(mod, cfg, modes=(J0,), **kw):
    return {"module": mod, "cfg": f"{mod}_{cfg}.cfg", "modes": list(modes), **kw}


def r(n, trace, jit=0, **kw):
    return {"n": n, "jit": jit, "trace": trace, **kw}


def plan(note, quick, thorough, technique=REP, **kw):
    return {"technique": technique, "note": note, **kw,
            "quick": {"models": quick[0], "record": quick[1]},
            "thorough": {"models": thorough[0], "record": thorough[1]}}


PLANS = {}
EX = "TLC and the drivers in drivers/ are trusted."
PLANS["C01"] = plan(
    "Exhaustive over all flag/missing patterns of short series (position coded values), sampled beyond. " + EX,
    ([m("MC_C01", "quick", (J0, J1))], [r(400, "T_C01"), r(400, "T_C01", 1)]),
    ([m("MC_C01", "thorough", (J0, J1T), shards=6)], [r(3000, "T_C01", shards=2), r(3000, "T_C01", 1, shards=2)]))
PLANS["C02"] = plan(
    "Exhaustive over all flag/missing patterns of short series (position coded values), sampled beyond. " + EX,
    ([m("MC_C02", "quick", (J0, J1)), m("MC_C02", "long", (J0, J1))], [r(400, "T_C02"), r(400, "T_C02", 1)]),
    ([m("MC_C02", "thorough", (J0, J1T)), m("MC_C02", "thorough_long", (J0, J1))],
     [r(3000, "T_C02", shards=2), r(3000, "T_C02", 1, shards=2)]))
PLANS["C03"] = plan(
    "Exhaustive over all series up to length 6 (8) over {missing, below, equal, above}, sampled beyond; one known finding (single sample between two gaps). " + EX,
    ([m("MC_C03", "quick", (J0, J1))], [r(500, "T_C03"), r(500, "T_C03", 1)]),
    ([m("MC_C03", "thorough", (J0, J1T), shards=6)], [r(4000, "T_C03", shards=2), r(4000, "T_C03", 1)]))
PLANS["C06"] = plan(
    "Exhaustive over flag/missing/attenuation classes of short series with exact dyadic rates, sampled beyond with tolerance 2e-3 dB. " + EX,
    ([m("MC_C06", "quick", (J0, J1T), shards=6)], [r(400, "T_C06"), r(400, "T_C06", 1)]),
    ([m("MC_C06", "thorough", (J0, J1T), shards=6, heap="12g")], [r(3000, "T_C06", shards=2), r(3000, "T_C06", 1, shards=2)]))
PLANS["C25"] = plan(
    "Exhaustive over level classes with missing values for short series, sampled beyond; exact arithmetic. " + EX,
    ([m("MC_C25", "quick")], [r(800, "T_C25")]),
    ([m("MC_C25", "thorough", shards=6)], [r(8000, "T_C25", shards=4)]))

PLANS["C04"] = plan(
    "Exhaustive over all short arrays of value classes for coefficients with exact powers and over all argument combinations; arbitrary coefficients sampled, the forward power law being evaluated by the driver. " + EX,
    ([m("MC_C04", "quick")], [r(700, "T_C04", shards=2)]),
    ([m("MC_C04", "thorough", shards=8)], [r(5000, "T_C04", shards=4)]))

PLANS["C05"] = plan(
    "Every node of both tables with every spelling and container replayed; the curves between the nodes are sampled densely and must satisfy the spline conditions in the spec. The 2005 table in the spec was cross-checked with the closed formula of P.838-3, the 2003 table is taken from the repository. " + EX,
    ([m("MC_C05", "single"), m("MC_C05", "multi")], [r(400, "T_C05")]),
    ([m("MC_C05", "single"), m("MC_C05", "multi")], [r(5000, "T_C05", shards=4)]))

PLANS["C07"] = plan(
    "All reference points (Pastorek exact in powers of two, Leijnse from an independent layer-matrix computation embedded in the spec) replayed; formula and inversion sampled over physical parameters, transcendental reference values being evaluated by lib/physics.py. " + EX,
    ([m("MC_C07", "quick")], [r(500, "T_C07", shards=2)]),
    ([m("MC_C07", "quick")], [r(5000, "T_C07", shards=6)]))

PLANS["C08"] = plan(
    "All splits of the arguments of all seven decorated functions into positional, keyword and default ones, with at most one (thorough: two) added and one dropped argument, replayed in varying dimension layouts; the reference of a labelled call is the same function on the plain series. " + EX,
    ([m("MC_C08", "quick", shards=6)], [r(250, "T_C08", shards=2)]),
    ([m("MC_C08", "thorough", (J0, J1T), shards=6)], [r(2000, "T_C08", shards=4), r(500, "T_C08", 1)]))

PLANS["C09"] = plan(
    "All networks of up to three links with endpoints on one great circle (exact distances, opposite points included) replayed; arbitrary coordinates sampled against an independent great circle formula in the driver, structure clauses decided by TLC. " + EX,
    ([m("MC_C09", "quick", shards=6)], [r(200, "T_C09", shards=2)]),
    ([m("MC_C09", "thorough", shards=8)], [r(1500, "T_C09", shards=4)]))
PLANS["C10"] = plan(
    "Signal histories of three links over three steps explored exhaustively in the model, a hash-selected part replayed (the code needs 60 ms per call); larger networks sampled; exact arithmetic. Known finding: first and last two steps. " + EX,
    ([m("MC_C10", "quick", shards=8)], [r(60, "T_C10", shards=4)]),
    ([m("MC_C10", "thorough", shards=8)], [r(500, "T_C10", shards=6)]))

PLANS["C11"] = plan(
    "Signal/flag histories up to 4 (5) steps explored exhaustively in the model, a hash-selected part of the longest replayed through the chain of all three functions with exact arithmetic; longer series and arbitrary power laws sampled (forward law evaluated by the driver). " + EX,
    ([m("MC_C11", "quick", shards=8)], [r(600, "T_C11", shards=2)]),
    ([m("MC_C11", "thorough", shards=8)], [r(6000, "T_C11", shards=4)]))

PLANS["C12"] = plan(
    "All layouts of up to three (four) stations at lattice points with exact rational results for p = 0, 1, 2, 3 (ties and stations exactly at the maximum distance may be resolved either way), moved, scaled and reordered; larger layouts and fractional p sampled with tolerance 0.05 % of the value range, weights measured by the driver. " + EX,
    ([m("MC_C12", "quick", (J0, J1), shards=3)], [r(500, "T_C12"), r(500, "T_C12", 1)]),
    ([m("MC_C12", "thorough", (J0, J1T), shards=5, heap="10g")], [r(5000, "T_C12", shards=3), r(3000, "T_C12", 1)]))

PLANS["C13"] = plan(
    "Histories of three calls with up to two changed arguments and of four calls with one, by new arrays or in place, model checked for the refinement cache = no cache and replayed (hash-selected in the quick tier) with exact results; longer random histories compared with new objects. " + EX,
    ([m("MC_C13", "quick", shards=3), m("MC_C13", "deep", (J0,), shards=3)], [r(150, "T_C13"), r(100, "T_C13", 1)]),
    ([m("MC_C13", "thorough", (J0, J1T), shards=4), m("MC_C13", "deep", (J0,), shards=3)], [r(1500, "T_C13", shards=3), r(1500, "T_C13", 1)]))

PLANS["C14"] = plan(
    "All sets of up to three (four) stations with values/missing on five grid layouts (row, column, block, irregular, generated) with exact rational IDW results replayed; larger sets, float resolutions and kriging (honours stations, constant field, missing stations) sampled. Kriging weights themselves come from pykrige and are not specified. " + EX,
    ([m("MC_C14", "quick", shards=4)], [r(500, "T_C14", shards=2)]),
    ([m("MC_C14", "thorough", shards=6, heap="8g")], [r(4000, "T_C14", shards=4)]))

PLANS["C15"] = plan(
    "All pairs of series up to length 4 (5) and a hash-selected part of the longer ones in varying containers and dtypes; up to 400 pairs sampled. The correlation is left open where it is 0/0 with predicted wet. " + EX,
    ([m("MC_C15", "quick", shards=6)], [r(400, "T_C15")]),
    ([m("MC_C15", "thorough", shards=8)], [r(4000, "T_C15", shards=4)]))
PLANS["C16"] = plan(
    "All pairs of series up to length 2 (hash-selected longer ones) over four values and missing, two thresholds, with exact integer aggregates; up to 25 pairs sampled. Correlation without variance and CV with mean 0 are left open. " + EX,
    ([m("MC_C16", "quick", shards=6)], [r(500, "T_C16")]),
    ([m("MC_C16", "thorough", shards=8)], [r(5000, "T_C16", shards=4)]))

PLANS["C17"] = plan(
    "All sample/stamp patterns over 6 (7) instants with repeated samples, the longest hash-selected, replayed in four time zones with naive and aware indexes; longer irregular series sampled. The samples of each interval are identified exactly by position coded values. " + EX,
    ([m("MC_C17", "quick", shards=8)], [r(200, "T_C17", shards=2)]),
    ([m("MC_C17", "thorough", shards=8)], [r(2000, "T_C17", shards=4)]))

PLANS["C18"] = plan(
    "All axis parallel and diagonal links inside a 3x4 (5x6) grid with four time ranges replayed with exact fractions, together with both resampling labels; arbitrary segments, grids and time ranges sampled against clipped path fractions of the driver. Fields without missing values. " + EX,
    ([m("MC_C18", "quick", shards=8)], [r(250, "T_C18", shards=2)]),
    ([m("MC_C18", "thorough", shards=8)], [r(1500, "T_C18", shards=4)]))

PLANS["C19"] = plan(
    "All files with up to two (three) links of one or two channels over three time patterns, two frequencies and names in reverse order, position coded levels, replayed as real HDF5 files in a scratch directory; files with up to 12 links and 4 channels sampled. Layout with tx and rx per channel only. " + EX,
    ([m("MC_C19", "quick", shards=8)], [r(60, "T_C19", shards=2)]),
    ([m("MC_C19", "thorough", shards=8, heap="8g")], [r(500, "T_C19", shards=4)]))

PLANS["C20"] = plan(
    "Interface level model of processes, URLs, directories and a server whose content changes, checked on the complete reachable graph; sampled histories of 6 steps (2 processes, 2 URLs) and recorded ones of up to 40 steps (3 processes, 4 URLs, 2 directories) run with real processes (really killed) or, without kills, threads of one process, a loopback server and both caches; the cache directory is observed at every call of a builtin during a call, where the process could be killed. URLs are drawn from pairs that a cache could confuse (case, query, slashes, long names) and contents from a few bytes to several buffers. Histories of up to 8 calls of cnn_wd, get_model, wet_dry_1d_cnn and resolve_model_paths (models really loaded, default arguments, failing server) are recorded against the same machine. An implementation level model (existence check, temporary file, replace, crash between any two operations) refines the interface level. Truncation that HTTP cannot reveal (no Content-Length) and clearing during a download are out of scope. " + EX,
    ([m("MC_C20", "gen", shards=8), m("MC_C20", "full", replay=False), m("MC_C20I", "quick", replay=False)], [r(40, "T_C20", shards=2), r(60, "T_C20", module="c20h")]),
    ([m("MC_C20", "gent", shards=8, heap="8g"), m("MC_C20", "full", replay=False), m("MC_C20I", "thorough", replay=False, heap="8g")], [r(300, "T_C20", shards=4), r(600, "T_C20", module="c20h", shards=2)]))

PLANS["C21"] = plan(
    "All data sets of up to 3 links, 5 (7) steps, 2 channels with at most one missing sample, all windows, reference lengths 2..2W, and all batch splittings as behaviours of the windowing machine; replayed with torch models that code position and channel of every sample, in three dimension orders. Windows of 180 (default and TorchScript file) and more links recorded. Reference lengths outside 2..2W are out of scope. " + EX,
    ([m("MC_C21", "quick", shards=4)], [r(60, "T_C21", shards=2)]),
    ([m("MC_C21", "thorough", shards=8, heap="8g")], [r(600, "T_C21", shards=4)]))

PLANS["C22"] = plan(
    "All data sets of up to 2 (3) links, 4 steps, 2 variables with up to two missing or infinite values, all selections and orders of links, windows 1..3; replayed through wet_dry_1d_cnn with a stand-in Keras that remembers the samples it gets. Recorded: larger ones with the stand-in, and with real TensorFlow models that return each single value of the window. Data sets without any complete window are out of scope. " + EX,
    ([m("MC_C22", "quick", shards=6)], [r(60, "T_C22"), r(4, "T_C22", real=True)]),
    ([m("MC_C22", "thorough", shards=8, heap="8g")], [r(500, "T_C22", shards=3), r(30, "T_C22", real=True, shards=2)]))

PLANS["C23"] = plan(
    "The design matrix (lead rows, windows, tail rows) as a machine, over all missing patterns of short series with small constants, and with the real constants (40, 720, 120) on series of 41 to 130 (365) steps with missing steps at edges and inside, replayed with all four models (probabilities of the driver's own copy of the model files); series of up to 900 steps recorded, with the rolling median checked from its definition. Series with fewer than 41 steps are out of scope. " + EX,
    ([m("MC_C23", "quick", shards=3), m("MC_C23", "small", replay=False)], [r(24, "T_C23", shards=2)]),
    ([m("MC_C23", "thorough", shards=6), m("MC_C23", "smallt", replay=False)], [r(150, "T_C23", shards=4)]))

PLANS["C24"] = plan(
    "Exact rational arithmetic over small spectrograms (up to 3 frequencies, 2 (3) windows, all offsets, dry periods, band limits, thresholds, missing windows), replayed as supplied spectrograms, including exact ties where floating point is exact. Series with windows of 4 to 16 steps recorded; their power computed from the definition of the Fourier transform by the driver, steps within 0.4 % of the threshold left open. Mirrored end steps are not judged. " + EX,
    ([m("MC_C24", "quick", shards=3)], [r(150, "T_C24", shards=2)]),
    ([m("MC_C24", "thorough", shards=6)], [r(1500, "T_C24", shards=4)]))

PLANS["C26"] = plan(
    "All single links and samples of pairs (triples) on a 5x5 (6x6) lattice, including links of zero length, over regular, irregular, single column, row and point grids; points within 0.5 % below the maximum distance are open (polygon approximation of circles). Up to 15 links and 11x14 irregular grids recorded, with permuted links. Maximum distance 0 is out of scope. " + EX,
    ([m("MC_C26", "quick", shards=6)], [r(80, "T_C26")]),
    ([m("MC_C26", "thorough", shards=8, heap="8g")], [r(800, "T_C26", shards=3)]))

PLANS["C31"] = plan(
    "Calendar machine: every day of three (twelve) years with every duration of the table (0.25 to 24 h), in ten spellings of the date, replayed; cosine by table in the spec (1e-5 relative). Dates from 1800 to 2210 and durations from 1 min to 48 h sampled, powers of the duration being evaluated by the driver. " + EX,
    ([m("MC_C31", "quick", shards=4)], [r(1000, "T_C31")]),
    ([m("MC_C31", "thorough", shards=8)], [r(10000, "T_C31", shards=4)]))
PLANS["C32"] = plan(
    "All pairs of series up to two (three) steps and a hash-selected part up to four (five) over absent, missing and two values, in varying containers; up to 1200 steps (rates) and 20 pairs (correlation) sampled. The correlation of a constant series is left open. " + EX,
    ([m("MC_C32", "quick", shards=4)], [r(400, "T_C32")]),
    ([m("MC_C32", "thorough", shards=8)], [r(4000, "T_C32", shards=4)]))

PLANS["C28"] = plan(
    "Product machine of the baseline, blackout and wet antenna kernels over all streams of up to 5 (6) samples with missing values and flags; every stream runs compiled and interpreted (two processes) and with other types of the arguments, results are compared with each other. Random streams of up to 400 samples, extreme magnitudes, infinities, and IDW weighting recorded. The values themselves are the subject of C01, C02, C03, C06 and C12. " + EX,
    ([m("MC_C28", "quick", [{"jit": 1, "shards": 4}])], [r(150, "T_C28", 1, shards=2)]),
    ([m("MC_C28", "thorough", [{"jit": 1, "shards": 8}])], [r(1500, "T_C28", 1, shards=4)]))

PLANS["C27"] = plan(
    "55 calls of the public functions over 55 shared argument objects (numpy, pandas, xarray, lists, dicts, models, files). All histories call a / anything / call a, where anything is another call, an edit of an argument of a in place, or an edit of the result of a, and hash-selected longer ones; each history in a process of its own, compared with the results of processes in which nothing else was called. Histories of up to 30 steps with random contents recorded. Objects that keep results by design (a validator's last series) are used as one composite call. " + EX,
    ([m("MC_C27", "quick", shards=8)], [r(25, "T_C27", shards=2)]),
    ([m("MC_C27", "thorough", shards=8, heap="8g")], [r(300, "T_C27", shards=8)]))

PLANS["C29"] = plan(
    "Two series in lock step through flags, baseline, wet antenna attenuation and rain rate over all streams up to length 2 (3) and hash-selected ones up to length 5 (6), with exact arithmetic (power law with exponent 1), replayed as single series and as link sets in three dimension orders with per link lengths; link sets of up to 3 links, 2 channels and 120 steps with ITU coefficients and all three wet antenna models recorded, every series also run on its own. " + EX,
    ([m("MC_C29", "quick", shards=8), m("MC_C29", "plain", shards=4)], [r(120, "T_C29", shards=2)]),
    ([m("MC_C29", "thorough", shards=8, heap="8g"), m("MC_C29", "plain", shards=4)], [r(1200, "T_C29", shards=8)]))

PLANS["C30"] = plan(
    "All histories of up to 3 (4) requests and changes of the environment (module importable or removed, permission variable, GPU, three behaviours of pip), hash-selected for replay, run with stand-ins for the import of tensorflow and for every command (nothing is ever executed); all combinations of 12 schemes, 4 folders, 6 names and 7 endings as sources for both libraries, with existing and missing local files, run against a loopback host that reports every contact. Longer histories and random strings recorded. " + EX,
    ([m("MC_C30", "quick", shards=4), m("MC_C30D", "quick", shards=8)], [r(150, "T_C30", shards=2)]),
    ([m("MC_C30", "thorough", shards=8, heap="8g"), m("MC_C30D", "thorough", shards=8)], [r(1500, "T_C30", shards=4)]))

PLANS["C33"] = plan(
    "All histories of up to 4 (5) imports, calls and installations over the eight initial environments, hash-selected for replay; every history runs in a process of its own in which the package is imported anew, the third party modules except PyTorch and TensorFlow being loaded before, TensorFlow being a stand-in and every command a stand-in; the modules are all files of the package. Longer histories recorded. " + EX,
    ([m("MC_C33", "quick", shards=4)], [r(60, "T_C33", shards=2)]),
    ([m("MC_C33", "thorough", shards=8)], [r(500, "T_C33", shards=4)]))

PLANS["C34"] = plan(
    "All histories of up to 4 (5) steps (reading, editing a result, writing another content, deleting, changing the directory, loading the three example files) over four initial files, hash-selected for replay; contents drawn per history, with instantaneous or min-max levels; the oracle reads the files with h5py alone. Longer histories recorded. " + EX,
    ([m("MC_C34", "quick", shards=4)], [r(40, "T_C34", shards=2)]),
    ([m("MC_C34", "thorough", shards=8)], [r(500, "T_C34", shards=4)]))

if __name__ == "__main__":
    with open(os.path.join(HERE, "drivers", "plans.json"), "w") as f:
        json.dump(PLANS, f, indent=1)
        f.write("\n")
