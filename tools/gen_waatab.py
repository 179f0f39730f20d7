#!/usr/bin/env python3
"""Writes spec/WaaTab.tla: reference values of the two layer transmission loss (lib/physics.py)."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import physics
F = [6, 10, 18, 23, 38, 80]
T = [274, 293, 305]
ANT = [(complex(1.73, 0.014), 0.001), (complex(2.1, 0.03), 0.0025)]
FILM = [5, 10, 20, 40, 80, 160]  # micrometre
rows = []
for f in F:
    for t in T:
        for a, (n, l) in enumerate(ANT, 1):
            v = [round(1e6 * physics.waa_leijnse(1.0, f * 1e9, float(t), x * 1e-6, 0.3, n, l)) for x in FILM]
            rows.append(f"  [f |-> {f}, T |-> {t}, ant |-> {a}, waa |-> <<{', '.join(map(str, v))}>>]")
with open(os.path.join(HERE, "spec", "WaaTab.tla"), "w") as o:
    o.write("------------------------------- MODULE WaaTab -------------------------------\n"
            "(* Transmission loss (1e-6 dB) of a water film on an antenna cover relative to the dry cover, *)\n"
            "(* for frequency f (GHz), temperature T (K), cover ant and film thickness Film[i] (micrometre);*)\n"
            "(* computed by tools/gen_waatab.py with 2x2 layer matrices, independent of the code under test. *)\n"
            "EXTENDS Integers\n"
            f"Film == <<{', '.join(map(str, FILM))}>>\n"
            "Rows == <<\n" + ",\n".join(rows) + " >>\n" + "=" * 77 + "\n")
