-------------------------------- MODULE C15 --------------------------------
(* Wet/dry contingency table of (reference, predicted) pairs over {0, 1, NaN}. *)
EXTENDS Common
Zero == [tp |-> 0, tn |-> 0, fp |-> 0, fn |-> 0, all |-> 0, nanp |-> 0, nanr |-> 0, nanq |-> 0]
B2N(b) == IF b THEN 1 ELSE 0
\* one more pair
Count(c, x, y) ==
  [all |-> c.all + 1, nanr |-> c.nanr + B2N(x = NaN), nanq |-> c.nanq + B2N(y = NaN), nanp |-> c.nanp + B2N(x = NaN \/ y = NaN),
   tp |-> c.tp + B2N(x = 1 /\ y = 1), tn |-> c.tn + B2N(x = 0 /\ y = 0),
   fp |-> c.fp + B2N(x = 0 /\ y = 1), fn |-> c.fn + B2N(x = 1 /\ y = 0)]
Table(ref, pred) == FoldLeftDomain(LAMBDA c, i : Count(c, ref[i], pred[i]), Zero, ref)
NWet(c) == c.tp + c.fn
NDry(c) == c.tn + c.fp
MccNum(c) == c.tp * c.tn - c.fp * c.fn
MccProd(c) == (c.tp + c.fp) * (c.tp + c.fn) * (c.tn + c.fp) * (c.tn + c.fn)

\* rate r (scaled 1e5) = n/d
Rate(r, n, d) == IF d = 0 THEN ~IsNum(r) ELSE IsNum(r) /\ Abs(r * d - n * 100000) <= d
\* every pair is given e.mult times (in any order)
Times(c, k) == [f \in DOMAIN c |-> c[f] * k]
Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE LET c == Table(e.ref, e.pred)  m == Times(c, e.mult) IN
    Fail(e.N_all_pairs # m.all, "total count") \cup Fail(e.N_nan_pairs # m.nanp \/ e.N_nan_reference_only # m.nanr \/ e.N_nan_predicted_only # m.nanq, "missing counts")
    \cup Fail(e.N_true_wet # m.tp, "true wet") \cup Fail(e.N_true_dry # m.tn, "true dry") \cup Fail(e.N_false_wet # m.fp, "false wet")
    \cup Fail(e.N_missed_wet # m.fn, "missed wet") \cup Fail(e.N_wet_reference # NWet(m), "wet reference") \cup Fail(e.N_dry_reference # NDry(m), "dry reference")
    \cup Fail(~Rate(e.true_wet_rate, c.tp, NWet(c)), "true wet rate") \cup Fail(~Rate(e.missed_wet_rate, c.fn, NWet(c)), "missed wet rate")
    \cup Fail(~Rate(e.true_dry_rate, c.tn, NDry(c)), "true dry rate") \cup Fail(~Rate(e.false_wet_rate, c.fp, NDry(c)), "false wet rate")
    \* correlation (scaled 1e4); den: square root of the product, measured, scaled by 10
    \cup (IF c.tp + c.fp = 0 THEN Fail(e.mcc # 0, "correlation without predicted wet")
          ELSE IF e.undef THEN Fail(IsNum(e.mcc), "correlation where it is not defined")
          ELSE IF e.den = 0 THEN {}
          ELSE Fail(~IsNum(e.mcc) \/ Abs(e.mcc * e.den - MccNum(c) * 100000) > 6000 + e.den, "Matthews correlation"))
    \* once = rates and correlation of the pairs given once, many = of all copies, with eight digits
    \cup Fail(\E i \in DOMAIN e.once : ~Near(e.many[i], e.once[i], 3), "changes when all pairs are repeated")
=============================================================================
