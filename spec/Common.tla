------------------------------- MODULE Common -------------------------------
(***************************************************************************)
(* Shared vocabulary.  Real numbers of the code are represented by scaled   *)
(* integers; the special values of IEEE arithmetic are sentinels far away   *)
(* from every scaled value that occurs.  TLC's integers are 32 bit and TLC  *)
(* reports an overflow as an error, never as a wrong value.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

NaN     == 1000000001   \* not a number / missing
PInf    == 1000000002
NInf    == 1000000003
Inexact == 1000000004   \* the code returned a number off the scaled grid
Huge    == 1000000005   \* the code returned a number too large for the scale

IsNum(x) == x < 1000000000
IsNaN(x) == x = NaN

Abs(x)     == IF x < 0 THEN -x ELSE x
MinOf(a, b) == IF a <= b THEN a ELSE b
MaxOf(a, b) == IF a >= b THEN a ELSE b

\* sum of a sequence of numbers; NaN if any is missing
SumSeq(s) == IF \E i \in DOMAIN s : ~IsNum(s[i]) THEN NaN
             ELSE FoldLeft(LAMBDA a, b : a + b, 0, s)

\* |x - y| <= tol, NaN matches NaN only
Near(x, y, tol) == IF IsNum(x) /\ IsNum(y) THEN Abs(x - y) <= tol ELSE x = y

\* clause labels: If(cond, "label") is the set of the labels of failed clauses
Fail(cond, label) == IF cond THEN {label} ELSE {}

\* the record e has field f
Has(e, f) == f \in DOMAIN e
=============================================================================
