-------------------------------- MODULE C16 --------------------------------
(***************************************************************************)
(* Rainfall metrics of (reference, predicted) pairs with integer values.    *)
(* All metrics are functions of the integer aggregates kept here:           *)
(*   n pairs with both values, sums sx, sy, squares sxx, syy, products sxy, *)
(*   absolute differences ad, squared differences dd, and for the threshold *)
(*   wet/dry counts and sums of rain in false and missed wet events.        *)
(***************************************************************************)
EXTENDS Common
B2N(b) == IF b THEN 1 ELSE 0
Zero == [all |-> 0, nanp |-> 0, nanr |-> 0, nanq |-> 0, n |-> 0, sx |-> 0, sy |-> 0, sxx |-> 0, syy |-> 0, sxy |-> 0, ad |-> 0, dd |-> 0,
         wet |-> 0, dry |-> 0, fw |-> 0, mw |-> 0, fwr |-> 0, mwr |-> 0]
Add(a, x, y, th) ==
  LET m == x = NaN \/ y = NaN
      b == [a EXCEPT !.all = @ + 1, !.nanp = @ + B2N(m), !.nanr = @ + B2N(x = NaN), !.nanq = @ + B2N(y = NaN)] IN
  IF m THEN b
  ELSE LET xw == x > th  yw == y > th IN
    [b EXCEPT !.n = @ + 1, !.sx = @ + x, !.sy = @ + y, !.sxx = @ + x * x, !.syy = @ + y * y, !.sxy = @ + x * y,
      !.ad = @ + Abs(x - y), !.dd = @ + (x - y) * (x - y),
      !.wet = @ + B2N(xw), !.dry = @ + B2N(~xw), !.fw = @ + B2N(~xw /\ yw), !.mw = @ + B2N(xw /\ ~yw),
      !.fwr = @ + (IF ~xw /\ yw THEN y ELSE 0), !.mwr = @ + (IF xw /\ ~yw THEN x ELSE 0)]
Agg(ref, pred, th) == FoldLeftDomain(LAMBDA a, i : Add(a, ref[i], pred[i], th), Zero, ref)
\* n^2 times the variances and covariance
Vx(a) == a.n * a.sxx - a.sx * a.sx
Vy(a) == a.n * a.syy - a.sy * a.sy
Cxy(a) == a.n * a.sxy - a.sx * a.sy
Vd(a) == a.n * a.dd - (a.sy - a.sx) * (a.sy - a.sx)

\* r (scaled S) = p/q
Rat(r, p, q, S) == IF q = 0 THEN ~IsNum(r) ELSE IsNum(r) /\ Abs(r * q - p * S) <= Abs(q)
\* r (scaled S) is the square root of p/q
Root(r, p, q, S) == IF q = 0 THEN ~IsNum(r) ELSE IsNum(r) /\ r >= 0 /\ Abs(r * r * q - p * S * S) <= (2 * r + 1) * q
\* every pair is given e.mult times (in any order)
Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE LET a == Agg(e.ref, e.pred, e.th)  k == e.mult IN
    Fail(e.N_all_pairs # k * a.all, "total count")
    \cup Fail(e.N_nan_pairs # k * a.nanp \/ e.N_nan_reference_only # k * a.nanr \/ e.N_nan_predicted_only # k * a.nanq, "missing counts")
    \cup Fail(e.R_sum_reference # k * a.sx \/ e.R_sum_predicted # k * a.sy, "sums")
    \cup Fail(~Rat(e.R_mean_reference, a.sx, a.n, 1000) \/ ~Rat(e.R_mean_predicted, a.sy, a.n, 1000), "means")
    \cup Fail(~Rat(e.mean_absolute_error, a.ad, a.n, 1000), "mean absolute error")
    \cup Fail(~Root(e.root_mean_square_error, a.dd, a.n, 100), "root mean square error")
    \* CV: measured root e.sd of Vd (scaled 10), CV scaled 1000
    \cup Fail(a.n > 0 /\ a.sx > 0 /\ (~IsNum(e.coefficient_of_variation) \/ Abs(e.coefficient_of_variation * a.sx - e.sd * 100) > 60 + a.sx), "coefficient of variation")
    \* Pearson, scaled 1000; e.den: measured root of Vx*Vy
    \cup Fail(Vx(a) > 0 /\ Vy(a) > 0 /\ (~IsNum(e.pearson_correlation) \/ Abs(e.pearson_correlation * e.den - Cxy(a) * 1000) > 510 + e.den), "Pearson correlation")
    \cup Fail(~Rat(e.false_wet_rate, a.fw, a.dry, 1000), "false wet rate") \cup Fail(~Rat(e.missed_wet_rate, a.mw, a.wet, 1000), "missed wet rate")
    \cup Fail(~Rat(e.false_wet_precipitation_rate, a.fwr, a.fw, 1000), "false wet rain") \cup Fail(~Rat(e.missed_wet_precipitation_rate, a.mwr, a.mw, 1000), "missed wet rain")
    \cup Fail(e.rainfall_threshold_wet # e.th, "threshold")
    \* once = the same metrics of the pairs given once, many = of all copies, both with eight digits
    \cup Fail(\E i \in DOMAIN e.once : ~Near(e.many[i], e.once[i], 3), "changes when all pairs are repeated")
=============================================================================
