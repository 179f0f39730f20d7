-------------------------------- MODULE C02 --------------------------------
(***************************************************************************)
(* Linear baseline.  A machine over the samples that, when a wet period     *)
(* ends, rewrites the baseline from the last dry step on.                   *)
(***************************************************************************)
EXTENDS Common

\* effective flag of a sample: 0 dry, 1 wet, NaN unknown (counts as not dry)
Eff(ign, prev, w) == IF w = NaN /\ ign THEN prev ELSE w

\* value k steps after the start of a line of len steps from v0 to v1
OnLine(v0, v1, k, len) == v0 + ((v1 - v0) * k) \div len

\* whole rewritten part lo..hi of the baseline of a period whose dry ends are lo and hi
Line(v0, v1, len, missing) ==
  [k \in 0..len |-> IF missing THEN NaN
                    ELSE IF k = len THEN v1
                    ELSE IF v0 = NaN \/ v1 = NaN THEN NaN
                    ELSE OnLine(v0, v1, k, len)]

(* ---------------- the machine ---------------- *)
Start(x) == [i |-> 1, lo |-> 1, v |-> x, wet |-> FALSE, miss |-> FALSE, out |-> <<x>>, eff |-> 0]

Step(st, x, w, ign) ==
  LET f == Eff(ign, st.eff, w)
      i == st.i + 1
  IN IF f # 0
     THEN [st EXCEPT !.i = i, !.wet = TRUE, !.miss = @ \/ f = NaN, !.eff = f,
                     !.out = Append(@, NaN)]           \* open: not known yet
     ELSE IF st.wet
     THEN LET line == Line(st.v, x, i - st.lo, st.miss) IN
          [st EXCEPT !.i = i, !.lo = i, !.v = x, !.wet = FALSE, !.miss = FALSE, !.eff = 0,
                     !.out = [k \in 1..i |-> IF k < st.lo THEN st.out[k] ELSE line[k - st.lo]]]
     ELSE [st EXCEPT !.i = i, !.lo = i, !.v = x, !.eff = 0, !.out = Append(@, x)]

(***************************************************************************)
(* Conformance of a recorded execution: every wet period is checked when it *)
(* ends, pend is what a dry step must hold unless a later period starting   *)
(* there rewrites it.                                                       *)
(***************************************************************************)
Acc0(x) == [lo |-> 1, v |-> x, wet |-> FALSE, miss |-> FALSE, eff |-> 0, pend |-> x, bad |-> {}]

LineOK(out, lo, hi, v0, v1, miss) ==
  LET len == hi - lo IN
  IF miss \/ v0 = NaN \/ v1 = NaN THEN \A k \in lo..(hi - 1) : out[k] = NaN
  ELSE /\ out[lo] = v0
       /\ \A k \in lo..(hi - 1) :
            IsNum(out[k]) /\ Abs((out[k] - v0) * len - (v1 - v0) * (k - lo)) <= len

StepCheck(a, i, x, w, ign, out) ==
  LET f == Eff(ign, a.eff, w) IN
  IF f # 0 THEN [a EXCEPT !.wet = TRUE, !.miss = @ \/ f = NaN, !.eff = f]
  ELSE IF a.wet
  THEN [a EXCEPT !.lo = i, !.v = x, !.wet = FALSE, !.miss = FALSE, !.eff = 0,
                 !.pend = IF a.miss THEN NaN ELSE x,
                 !.bad = @ \cup Fail(~LineOK(out, a.lo, i, a.v, x, a.miss),
                                     IF a.miss THEN "period with missing flag" ELSE "wet period")]
  ELSE [a EXCEPT !.lo = i, !.v = x, !.eff = 0, !.pend = x,
                 !.bad = @ \cup Fail(out[a.lo] # a.pend, "dry step")]

Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE IF Len(e.out) # Len(e.x) THEN {"length"}
  ELSE IF e.x = <<>> THEN {}
  ELSE LET n == Len(e.x)
           r == FoldLeftDomain(LAMBDA a, i : IF i = 1 THEN a
                                   ELSE StepCheck(a, i, e.x[i], e.w[i], e.ign, e.out),
                               Acc0(e.x[1]), e.x)
       IN r.bad \cup Fail(e.out[r.lo] # r.pend, "dry step")
                \cup Fail(r.wet /\ \E k \in (r.lo + 1)..n : e.out[k] # NaN, "open wet period")
=============================================================================
