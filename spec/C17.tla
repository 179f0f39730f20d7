-------------------------------- MODULE C17 --------------------------------
(***************************************************************************)
(* Aggregation onto a new time index.  ts: sequence of sample instants (any *)
(* order, repeats allowed), ni: set of the instants of the new index.       *)
(***************************************************************************)
EXTENDS Common
Start(ts, ni) == MaxOf(Min({ts[i] : i \in DOMAIN ts}), Min(ni))
Stop(ts, ni)  == MinOf(Max({ts[i] : i \in DOMAIN ts}), Max(ni))
InPeriod(t, ts, ni) == t >= Start(ts, ni) /\ t <= Stop(ts, ni)
\* the time stamp every sample belongs to; NaN: none
StampSeq(ts, ni, label) ==
  LET a == Start(ts, ni)  b == Stop(ts, ni)  P == {s \in ni : s >= a /\ s <= b} IN
  [i \in DOMAIN ts |->
    LET C == {s \in P : IF label = "right" THEN s >= ts[i] ELSE s <= ts[i]} IN
    IF ts[i] < a \/ ts[i] > b \/ C = {} THEN NaN ELSE IF label = "right" THEN Min(C) ELSE Max(C)]
\* for the stamps st of the samples: the samples of a stamp, the stamps of the result
Group(s, st) == {i \in DOMAIN st : st[i] = s}
Stamps(st) == Range(st) \ {NaN}

\* events: e.idx: instants of the result, e.groups: the samples aggregated for each
Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE LET ni == Range(e.ni)  st == StampSeq(e.ts, ni, e.label)  want == Stamps(st) IN
    Fail(Range(e.idx) # want \/ Len(e.idx) # Cardinality(want), "time stamps of the result")
    \cup Fail(\E k \in DOMAIN e.idx : Range(e.groups[k]) # Group(e.idx[k], st), "samples of an interval")
    \cup Fail(\E k \in 1..(Len(e.idx) - 1) : e.idx[k] >= e.idx[k + 1], "order")
    \cup Fail(~e.tzok, "time zone of the result") \cup Fail(~e.unchanged, "input changed") \cup Fail(~e.cols, "columns")
=============================================================================
