-------------------------------- MODULE C11 --------------------------------
(***************************************************************************)
(* Reference level, corrected signals and rain rate of the nearby link      *)
(* approach for one link.  Unit of pmin/pmax: u; of the reference level:    *)
(* u/4 (mean of two values, median of two means).                           *)
(***************************************************************************)
EXTENDS Common

Median2(q) ==
  LET s == SortSeq(SelectSeq(q, LAMBDA v : v # NaN), LAMBDA a, b : a < b)  n == Len(s) IN
  IF n = 0 THEN NaN ELSE IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[n \div 2 + 1]

\* twice the mean of pmin and pmax at a dry step, missing otherwise
DryMean2(pmin, pmax, w) == IF w # 0 \/ pmin = NaN \/ pmax = NaN THEN NaN ELSE pmin + pmax
\* four times the reference level at step t
Ref4(pmin, pmax, wet, t, n, minp) ==
  LET a == MaxOf(1, t - n + 1)
      q == [k \in 1..(t - a + 1) |-> DryMean2(pmin[a + k - 1], pmax[a + k - 1], wet[a + k - 1])]
      p == SelectSeq(q, LAMBDA v : v # NaN)
  IN IF Len(p) = 0 \/ Len(p) < minp THEN NaN ELSE Median2(p)

\* corrected signals, in units u/4 (r4: reference level)
Cmin(pmin, w, r4) == IF r4 # NaN /\ pmin # NaN /\ 4 * pmin < r4 /\ w = 1 THEN 4 * pmin ELSE r4
Cmax(pmax, cmin, r4) == IF r4 # NaN /\ pmax # NaN /\ cmin < r4 /\ 4 * pmax < r4 THEN 4 * pmax ELSE r4

\* attenuation above the wet antenna attenuation, never negative
Att(r4, c4, waa4) == IF r4 = NaN \/ c4 = NaN THEN NaN ELSE MaxOf(r4 - c4 - waa4, 0)

\* exact rain rate for a linear power law with a*L = 1 in units u/16, alpha = al/4
Rain16(r4, cmin, cmax, waa4, al) ==
  LET x == Att(r4, cmin, waa4)  y == Att(r4, cmax, waa4) IN
  IF x = NaN \/ y = NaN THEN NaN ELSE al * x + (4 - al) * y
\* F filter: missing where F is at or below its threshold (thr = NaN: filter not used)
Filter(r, F, thr) == IF thr # NaN /\ F # NaN /\ F <= thr THEN NaN ELSE r

Bad(e) ==
  CASE e.k = "ref" ->
       IF e.exc # "" THEN {"raised"}
       ELSE IF Len(e.out) # Len(e.pmin) THEN {"length"}
       ELSE Fail(\E t \in DOMAIN e.out : e.out[t] # Ref4(e.pmin, e.pmax, e.wet, t, e.n, e.minp), "reference level")
    [] e.k = "corr" ->
       IF e.exc # "" THEN {"raised"}
       ELSE IF Len(e.cmin) # Len(e.pmin) \/ Len(e.cmax) # Len(e.pmin) THEN {"length"}
       ELSE Fail(\E t \in DOMAIN e.pmin : e.cmin[t] # Cmin(e.pmin[t], e.wet[t], e.ref[t]), "corrected pmin")
         \cup Fail(\E t \in DOMAIN e.pmin : e.cmax[t] # Cmax(e.pmax[t], Cmin(e.pmin[t], e.wet[t], e.ref[t]), e.ref[t]), "corrected pmax")
         \cup Fail(\E t \in DOMAIN e.pmin : e.ref[t] # NaN /\ (e.cmin[t] > e.ref[t] \/ e.cmax[t] > e.ref[t]), "above the reference level")
    [] e.k = "rain" ->  \* rmin, rmax: rain rates of the two attenuations by the forward law, scaled
       IF e.exc # "" THEN {"raised"}
       ELSE IF Len(e.R) # Len(e.ref) THEN {"length"}
       ELSE UNION {
         LET x == Att(e.ref[t], e.cmin[t], e.waa)  y == Att(e.ref[t], e.cmax[t], e.waa)
             gone == e.usef /\ e.F[t] # NaN /\ e.F[t] <= e.thr IN
         IF gone \/ x = NaN \/ y = NaN THEN Fail(e.R[t] # NaN, IF gone THEN "F score filter" ELSE "missing input")
         ELSE Fail(~IsNum(e.R[t]), "not a number")
           \cup Fail(IsNum(e.R[t]) /\ e.R[t] < 0, "negative")
           \cup Fail(x = 0 /\ y = 0 /\ e.R[t] # 0, "rain without attenuation")
           \cup Fail(IsNum(e.R[t]) /\ ~Near(e.R[t], e.want[t], 2), "rain rate")
         : t \in DOMAIN e.R }
=============================================================================
