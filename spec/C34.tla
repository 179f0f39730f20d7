-------------------------------- MODULE C34 --------------------------------
(***************************************************************************)
(* CML files and what was read from them.  The state: the file on disk      *)
(* (0 missing, otherwise the number of its content), the working directory, *)
(* and the results read so far, each of which is the content of a file at    *)
(* the time of reading, possibly edited by its owner afterwards.             *)
(* Contents: 1.. are written by the user, "one", "many" and "minmax" are the *)
(* example files that come with the package.                                 *)
(***************************************************************************)
EXTENDS Common
Start(v) == [disk |-> v, res |-> <<>>, cwd |-> 0]
Examples == {"one", "many", "minmax"}
Took(s, c) == [s |-> [s EXCEPT !.res = Append(@, [of |-> c, ed |-> 0])], exc |-> FALSE]
Do(s, x) ==
  CASE x.op = "read"    -> IF s.disk = 0 THEN [s |-> s, exc |-> TRUE] ELSE Took(s, ToString(s.disk))
    [] x.op = "example" -> Took(s, x.f)
    [] x.op = "write"   -> [s |-> [s EXCEPT !.disk = x.v], exc |-> FALSE]
    [] x.op = "delete"  -> [s |-> [s EXCEPT !.disk = 0], exc |-> FALSE]
    [] x.op = "cd"      -> [s |-> [s EXCEPT !.cwd = 1 - @], exc |-> FALSE]
    \* the owner of the k-th result changes it in place
    [] x.op = "edit"    -> [s |-> IF x.k <= Len(s.res) THEN [s EXCEPT !.res[x.k].ed = @ + 1] ELSE s, exc |-> FALSE]

(* ------------------------------------------------ recorded executions *)
\* x.exc: the step raised; x.res: what the results hold afterwards (content and number of edits, "?" if neither);
\* x.disk: content of the file afterwards; x.open: the file is still open; x.kept: the example files are as shipped
StepBad(x, r) ==
  Fail(x.exc # r.exc, IF x.exc THEN x.op \o " failed" ELSE "missing file read")
  \cup (IF Len(x.res) # Len(r.s.res) THEN {"number of results"} ELSE
        UNION {Fail(x.res[i] # r.s.res[i], IF i = Len(x.res) /\ x.op \in {"read", "example"} THEN "content of the file" ELSE "an earlier result changed") : i \in DOMAIN x.res})
  \cup Fail(x.disk # r.s.disk, "the file changed") \cup Fail(x.open, "the file is left open") \cup Fail(~x.kept, "an example file changed")
Bad(e) == FoldLeft(LAMBDA a, x : LET r == Do(a.s, x) IN [s |-> r.s, bad |-> a.bad \cup StepBad(x, r)],
                   [s |-> Start(e.disk), bad |-> {}], e.steps).bad
=============================================================================
