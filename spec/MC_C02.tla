------------------------------- MODULE MC_C02 -------------------------------
EXTENDS C02, Json
CONSTANTS MaxLen, XKinds

VARIABLES ign, xs, ws, st
vars == <<ign, xs, ws, st>>

\* multiples of lcm(1..7), so that all interpolated values are exact
Val(i) == (i * i * 13 + i * 5 + 1) * 420 * (IF i % 3 = 2 THEN -1 ELSE 1)
Vals == {"num"} 

Init == /\ ign \in BOOLEAN /\ ws \in {<<w>> : w \in {0, 1, NaN}}
        /\ xs \in {<<IF k = "nan" THEN NaN ELSE Val(1)>> : k \in XKinds}
        /\ st = Start(xs[1])
Sample(k, w) ==
  LET x == IF k = "nan" THEN NaN ELSE Val(Len(xs) + 1) IN
  /\ Len(xs) < MaxLen
  /\ xs' = Append(xs, x) /\ ws' = Append(ws, w)
  /\ st' = Step(st, x, w, ign)
  /\ UNCHANGED ign
Next == \E k \in XKinds, w \in {0, 1, NaN} : Sample(k, w)
Spec == Init /\ [][Next]_vars

(* ---- the property, declaratively ---- *)
L == Len(xs)
out == st.out
RECURSIVE EffAt(_)
EffAt(i) == IF i = 1 THEN 0 ELSE IF ws[i] = NaN /\ ign THEN EffAt(i - 1) ELSE ws[i]
Dry(i) == EffAt(i) = 0
Lo(i) == CHOOSE j \in 1..(i-1) : Dry(j) /\ \A k \in (j+1)..i : ~Dry(k)
HasHi(i) == \E j \in i..L : Dry(j)
Hi(i) == CHOOSE j \in i..L : Dry(j) /\ \A k \in i..(j-1) : ~Dry(k)
MissIn(i) == \E k \in (Lo(i)+1)..(Hi(i)-1) : EffAt(k) = NaN

\* between the dry ends: straight line
WetLine == \A i \in 2..L : (~Dry(i) /\ HasHi(i) /\ ~MissIn(i) /\ xs[Lo(i)] # NaN /\ xs[Hi(i)] # NaN) =>
   (out[i] - xs[Lo(i)]) * (Hi(i) - Lo(i)) = (xs[Hi(i)] - xs[Lo(i)]) * (i - Lo(i))
\* never invented: no end, missing flag or missing end values
NoInvention == \A i \in 2..L : ~Dry(i) =>
   (IF ~HasHi(i) THEN out[i] = NaN
    ELSE IF MissIn(i) \/ xs[Lo(i)] = NaN \/ xs[Hi(i)] = NaN THEN out[i] = NaN ELSE out[i] # NaN)
\* dry steps hold the signal, except that they are lost with a period that is missing
DryStep == \A i \in 1..L : Dry(i) => out[i] \in {xs[i], NaN}
DryStepNum == \A i \in 1..L : Dry(i) /\ (i = 1 \/ Dry(i-1)) /\ (i = L \/ Dry(i+1)) => out[i] = xs[i]
DryBetweenComplete == \A i \in 1..L :
   (Dry(i) /\ (i = L \/ (IF Dry(i+1) THEN TRUE ELSE IF HasHi(i+1) THEN ~MissIn(i+1) /\ xs[Hi(i+1)] # NaN ELSE TRUE))
           /\ (i = 1 \/ (IF Dry(i-1) THEN TRUE ELSE ~MissIn(i-1)))) => out[i] = xs[i]
LengthKept == Len(out) = L
SameAsCheck == Bad([exc |-> "", x |-> xs, w |-> ws, ign |-> ign, out |-> out]) = {}

Emit == PrintT("@@" \o ToJson([ign |-> ign, x |-> xs, w |-> ws, out |-> out]))
=============================================================================
