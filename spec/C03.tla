-------------------------------- MODULE C03 --------------------------------
(***************************************************************************)
(* Blackout gaps.  Marker definition, and the machine that derives the mask *)
(* from the markers in one pass over the samples.                           *)
(***************************************************************************)
EXTENDS Common

IsStart(x, thr, i) == /\ IsNum(x[i]) /\ x[i] < thr /\ i < Len(x) /\ x[i+1] = NaN
IsEnd(x, thr, i)   == /\ IsNum(x[i]) /\ x[i] < thr /\ i > 1 /\ x[i-1] = NaN

(* the machine: in_gap after the sample; a single sample between two gaps that is end and
   start marker at once closes the gap (known finding "blackout-island") *)
InGap(in, xi, gs, ge) == IF xi = NaN THEN in ELSE gs /\ ~ge
MaskOf(in, xi, gs, ge) == xi = NaN /\ in

RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* clause labels of a forward mask m for series x and markers gs, ge
MaskBad(x, gs, ge, m) ==
  LET r == FoldLeftDomain(
       LAMBDA a, i :
         IF x[i] # NaN
         THEN [last |-> i, bad |-> a.bad \cup Fail(m[i], "masked although not missing")]
         ELSE LET p == a.last IN
              [last |-> p,
               bad |-> a.bad \cup
                 (IF p = 0 THEN Fail(m[i], "masked without start marker")
                  ELSE IF gs[p] /\ ge[p] THEN Fail(~m[i], "blackout-island")
                  ELSE IF gs[p] THEN Fail(~m[i], "gap with start marker not masked")
                  ELSE Fail(m[i], "masked without start marker"))],
       [last |-> 0, bad |-> {}], x)
  IN r.bad

Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE LET n == Len(e.x) IN
  IF \E s \in {e.gs, e.ge, e.mf, e.mr} : Len(s) # n THEN {"length"}
  ELSE Fail(\E i \in 1..n : e.gs[i] # IsStart(e.x, e.thr, i), "gap start")
    \cup Fail(\E i \in 1..n : e.ge[i] # IsEnd(e.x, e.thr, i), "gap end")
    \cup MaskBad(e.x, e.gs, e.ge, e.mf)
    \cup MaskBad(RevSeq(e.x), RevSeq(e.ge), RevSeq(e.gs), RevSeq(e.mr))
=============================================================================
