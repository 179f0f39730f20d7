---- MODULE T_C01 ----
(* Trace validation: every recorded execution (one event of the NDJSON file) must be one  *)
(* that the specification in C01 allows.  Total verdict: every event is consumed, failed  *)
(* events are printed with the labels of the failed clauses.                             *)
EXTENDS C01, Json, IOUtils
VARIABLES l, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
TraceInit == l = 1 /\ bad = 0
TraceNext ==
  /\ l <= N
  /\ LET b == Bad(Trace[l]) IN
       /\ bad' = bad + (IF b = {} THEN 0 ELSE 1)
       /\ IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([l |-> l, bad |-> SetToSeq(b)]))
  /\ l' = l + 1
  /\ IF l = N THEN PrintT("@@" \o ToJson([done |-> N])) ELSE TRUE
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
Conforms == l > N => bad = 0
====
