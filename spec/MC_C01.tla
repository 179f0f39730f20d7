------------------------------- MODULE MC_C01 -------------------------------
(* Exhaustive exploration of all short series; every reachable state is a complete *)
(* behaviour (input so far, output so far) which is emitted for replay.             *)
EXTENDS C01, Json
CONSTANTS MaxLen, Ns, XKinds

VARIABLES n, xs, ws, out, st
vars == <<n, xs, ws, out, st>>

\* position coded signal values, divisible by all n: every sample is distinguishable
Val(i) == (i * i * 17 + i * 3 + 1) * 60 * (IF i % 3 = 0 THEN -1 ELSE 1)

Init == /\ n \in Ns /\ xs = <<>> /\ ws = <<>> /\ out = <<>> /\ st = Init0(n)

Sample(k, w) ==
  LET x == IF k = "nan" THEN NaN ELSE Val(Len(xs) + 1) IN
  /\ Len(xs) < MaxLen
  /\ xs' = Append(xs, x) /\ ws' = Append(ws, w)
  /\ out' = Append(out, StepOut(st, x, w))
  /\ st' = Step(st, x, w)
  /\ UNCHANGED n
Next == \E k \in XKinds, w \in {0, 1, NaN} : Sample(k, w)
Spec == Init /\ [][Next]_vars

(* ---- the property, stated without the state machine ---- *)
L == Len(xs)
\* start of the run of equal flags that contains i
RunStart(i) == CHOOSE j \in 1..i : (\A k \in j..i : ws[k] = ws[i]) /\ (j = 1 \/ ws[j-1] # ws[i])
DryEqualsSignal == \A i \in 1..L : ws[i] = 0 => out[i] = xs[i]
FirstSteps == \A i \in 1..L : i <= n /\ ws[i] # NaN => out[i] = xs[i]
MissingFlag == \A i \in 1..L : ws[i] = NaN => out[i] = NaN
ConstantInWet == \A i \in 2..L : i > n /\ ws[i] = 1 /\ ws[i-1] = 1 => out[i] = out[i-1]
WetAfterMissing == \A i \in 1..L : i > n /\ ws[i] = 1 =>
   (LET s == RunStart(i) IN s > n /\ s > 1 /\ ws[s-1] = NaN => out[i] = NaN)
WetLevel == \A i \in 1..L : (ws[i] = 1 /\ RunStart(i) > n /\ ws[RunStart(i) - 1] = 0) =>
   LET s == RunStart(i)
       h == [k \in 1..n |-> out[s - k]]
   IN IF \E k \in 1..n : h[k] = NaN THEN out[i] = NaN
      ELSE out[i] * n = SumSeq([k \in 1..n |-> h[k]])
LengthKept == Len(out) = L
\* the baseline during a wet period only depends on samples up to its start: guaranteed
\* by construction (out is only ever appended to); restated as action property
Causal == [][SubSeq(out', 1, Len(out)) = out]_vars

Emit == PrintT("@@" \o ToJson([n |-> n, x |-> xs, w |-> ws, out |-> out]))
=============================================================================
