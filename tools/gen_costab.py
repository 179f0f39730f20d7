#!/usr/bin/env python3
"""Writes spec/CosTab.tla: cosine of 0, 0.1, ..., 90 degrees in units of 1e-6."""
import math, os
T = ", ".join(str(round(1e6 * math.cos(math.radians(i / 10)))) for i in range(901))
D = [0.25, 0.5, 1, 2, 3, 6, 12, 24]
rows = []
for d in D:
    v = [15.51 * d**.09, 2.06 * d**-.12, 7.37 * d**.22, .84 * d**-.25, .20 * d**-.37, 162 * d**-.03]
    s = [1e6, 1e6, 1e4, 1e6, 1e6, 1e4]
    rows.append("[h100 |-> %d, rm |-> %d, ra |-> %d, rp |-> %d, sm |-> %d, sa |-> %d, sp |-> %d]" % (d * 100, *(round(a * b) for a, b in zip(v, s))))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "CosTab.tla"), "w").write(
    "---- MODULE CosTab ----\n(* generated by tools/gen_costab.py *)\nEXTENDS Integers\n"
    "\\* cosine of 0, 0.1, ..., 90 degrees, in units of 1e-6\nCOS90 == <<" + T + ">>\n"
    "\\* durations (in 1/100 h) with mean and amplitude (1e-6) and phase (1e-4 days) of the fourth roots of range (m) and sill\n"
    "DURATIONS == {" + ",\n  ".join(rows) + "}\n====\n")
