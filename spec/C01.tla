-------------------------------- MODULE C01 --------------------------------
(***************************************************************************)
(* Constant baseline.  A state machine over the samples of one series: the  *)
(* state is the wet flag and the baseline of the previous steps.            *)
(* Values are scaled integers, wet flags are 0, 1 or NaN.                   *)
(***************************************************************************)
EXTENDS Common

\* st: [i, w (flag of the previous sample), hist (last n baseline values)]
Init0(n) == [i |-> 0, w |-> 0, hist |-> <<>>, n |-> n]

\* mean of the n last baseline values
MeanHist(h, n) == IF \E k \in 1..Len(h) : h[k] = NaN THEN NaN ELSE SumSeq(h) \div n

StepOut(st, x, w) ==
  IF w = NaN THEN NaN
  ELSE IF st.i < st.n THEN x
  ELSE IF w = 1 /\ st.w = 0 THEN MeanHist(st.hist, st.n)
  ELSE IF w = 1 THEN st.hist[Len(st.hist)]
  ELSE x

\* the step of the machine, b being the baseline value of this step
StepWith(st, w, b) ==
  LET h == Append(st.hist, b)
  IN  [st EXCEPT !.i = @ + 1, !.w = w,
                 !.hist = IF Len(h) > st.n THEN Tail(h) ELSE h]

Step(st, x, w) == StepWith(st, w, StepOut(st, x, w))

(***************************************************************************)
(* Conformance of one recorded execution: e.x signal, e.w flags, e.n, e.out *)
(* The machine is driven with the recorded baseline, so that the mean is     *)
(* compared with tolerance 2 (units of the scale) while everything that is   *)
(* copied is compared exactly.                                               *)
(***************************************************************************)
Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE IF Len(e.out) # Len(e.x) THEN {"length"}
  ELSE LET r == FoldLeftDomain(
                  LAMBDA acc, i :
                    [st |-> StepWith(acc.st, e.w[i], e.out[i]),
                     bad |-> acc.bad \cup
                       (IF Near(StepOut(acc.st, e.x[i], e.w[i]), e.out[i],
                                IF e.w[i] = 1 /\ acc.st.w = 0 THEN 2 ELSE 0) THEN {}
                        ELSE {IF e.w[i] = NaN THEN "missing flag"
                              ELSE IF e.w[i] = 0 THEN "dry step"
                              ELSE IF acc.st.i < acc.st.n THEN "first steps"
                              ELSE IF acc.st.w = 1 THEN "within wet period"
                              ELSE IF acc.st.w = 0 THEN "start of wet period"
                              ELSE "after missing flag"})],
                  [st |-> Init0(e.n), bad |-> {}], e.x)
       IN r.bad
=============================================================================
