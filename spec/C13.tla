-------------------------------- MODULE C13 --------------------------------
(***************************************************************************)
(* Sequences of calls on one distance tree or one interpolator.  The        *)
(* abstract result of a call is a function of its arguments (Fresh).  The   *)
(* implementation model keeps the tree and the neighbours of the last call  *)
(* and reuses them if the key is unchanged; it refines the abstract one.    *)
(***************************************************************************)
EXTENDS IDW
\* argument choices
StationSets == << << <<0, 0>>, <<1, 0>>, <<0, 2>>, <<3, 1>> >>, << <<0, 0>>, <<2, 0>>, <<0, 2>>, <<3, 1>> >>,
    << <<3, 1>>, <<0, 0>>, <<0, 2>>, <<1, 0>> >> >>  \* the first ones in another order
Values == << <<6, -4, 30, 12>>, <<0, 8, -10, 5>> >>
Queries == << << <<1, 1>>, <<2, 1>> >>, << <<1, 1>>, <<0, 1>> >>, << <<2, 0>> >> >>
MaxD2 == <<NaN, 3>>
\* mask 1: nothing missing, 2: the value of the third station missing, 3: all missing
ZOf(a) == [i \in 1..4 |-> IF a.mask = 3 \/ (a.mask = 2 /\ i = 3) THEN NaN ELSE Values[a.z][i]]
\* the tree works on all stations, the interpolator leaves those with missing value out
StOf(a, kind) ==
  LET s == [i \in 1..4 |-> <<StationSets[a.st][i][1], StationSets[a.st][i][2], ZOf(a)[i]>>] IN
  IF kind = "tree" THEN s ELSE SelectSeq(s, LAMBDA x : x[3] # NaN)
W(p) == [d \in 1..20 |-> IF p = 0 THEN 1 ELSE 3600 \div d]
ResultAt(s, q, a) == Results(s, q, a.nnear, MaxD2[a.maxd], LAMBDA d : IF a.p = 0 THEN 1 ELSE 3600 \div d)
Fresh(a, kind) == [k \in DOMAIN Queries[a.q] |-> ResultAt(StOf(a, kind), Queries[a.q][k], a)]

\* recorded histories: every result equals that of a new object with the same arguments
Bad(e) == Fail(e.exc # "", "raised")
  \cup Fail(\E k \in DOMAIN e.same : ~e.same[k], "differs from a new object")
  \cup Fail(Len(e.same) # e.n /\ e.exc = "", "calls")
=============================================================================
