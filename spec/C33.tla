-------------------------------- MODULE C33 --------------------------------
(***************************************************************************)
(* Optional dependencies.  The state of a Python process: which of PyTorch  *)
(* and TensorFlow can be imported and which of them are loaded, whether the *)
(* environment permits installations, and whether the TensorFlow part of    *)
(* the package has been imported.                                           *)
(* Modules fall in three groups: "torch" (pytorch_utils and its modules),   *)
(* "tf" (tensorflow_utils and its modules) and "plain" (all others).        *)
(***************************************************************************)
EXTENDS Common

Start(torch, tf, env) == [torch |-> torch, tf |-> tf, env |-> env, tl |-> FALSE, fl |-> FALSE, tfpkg |-> FALSE, named |-> FALSE]

\* result of a step: state, error ("" or what the error names), told (the user is told that TensorFlow is missing)
Ok(s) == [s |-> s, exc |-> "", told |-> FALSE]
Import(s, g) ==
  CASE g = "plain" -> Ok(s)
    [] g = "torch" -> IF s.torch THEN Ok([s EXCEPT !.tl = TRUE]) ELSE [s |-> s, exc |-> "torch", told |-> FALSE]
    \* the package itself is initialised once; then it offers its functions if TensorFlow is there, and tells if it is not
    [] g = "tf"    -> [s |-> IF s.tfpkg THEN s ELSE [s EXCEPT !.tfpkg = TRUE, !.named = s.tf], exc |-> "", told |-> ~s.tfpkg /\ ~s.tf]
Do(s, x) ==
  CASE x.op = "import" -> Import(s, x.g)
    [] x.op = "call"   -> Ok(s)
    \* a function that needs TensorFlow; an installation is tried where permitted, but does not help here
    [] x.op = "use"    -> LET r == Import(s, "tf") IN
                          IF s.tf THEN [r EXCEPT !.s.fl = TRUE] ELSE [r EXCEPT !.exc = "tensorflow"]
    [] x.op = "add"    -> Ok(IF x.g = "torch" THEN [s EXCEPT !.torch = TRUE] ELSE [s EXCEPT !.tf = TRUE])

(* ------------------------------------------------ recorded executions *)
\* per step: x.exc, x.told, x.tl, x.fl (loaded afterwards), x.named, x.half (a module of a failed import is left behind),
\* x.touched (files, commands, connections and global settings that an import touched), x.same (the call gave its known result)
StepBad(x, r) ==
  Fail(x.exc # r.exc, IF x.exc = "" THEN "missing dependency not reported" ELSE IF r.exc = "" THEN x.op \o " failed" ELSE "other error")
  \cup Fail(x.tl # r.s.tl, IF x.tl THEN "PyTorch loaded without need" ELSE "PyTorch not loaded")
  \cup Fail(x.fl # r.s.fl, IF x.fl THEN "TensorFlow loaded without need" ELSE "TensorFlow not loaded")
  \cup Fail(r.told /\ ~x.told, "not told that TensorFlow is missing")
  \cup Fail(r.s.named /\ ~x.named, "functions not offered by tensorflow_utils")
  \cup Fail(x.half, "half imported module left")
  \cup Fail(x.touched, "import with side effects")
  \cup Fail(~x.same, "another result")
Bad(e) == FoldLeft(LAMBDA a, x : LET r == Do(a.s, x) IN [s |-> r.s, bad |-> a.bad \cup StepBad(x, r)],
                   [s |-> Start(e.torch, e.tf, e.env), bad |-> {}], e.steps).bad
=============================================================================
