------------------------------- MODULE MC_C06 -------------------------------
EXTENDS C06, Json
CONSTANTS MaxLen
VARIABLES par, as, ws, out
vars == <<par, as, ws, out>>
WMax == 1024 * 6
\* rate p/q with exact halves so that the recursion stays on the grid
Rates == {<<1, 2>>, <<1, 4>>, <<1, 1>>, <<3, 2>>}
Atts == {NaN, -1024, 0, 1024, 5120, 9216}
Init == /\ par \in Rates /\ as \in {<<a>> : a \in {NaN, 0, 9216}} /\ ws \in {<<w>> : w \in {0, 1}} /\ out = <<0>>
Next == /\ Len(as) < MaxLen
        /\ \E a \in Atts, w \in {0, 1, NaN} :
             /\ as' = Append(as, a) /\ ws' = Append(ws, w)
             /\ out' = Append(out, Next1(out[Len(out)], a, w, WMax, par[1], par[2]))
        /\ UNCHANGED par
Spec == Init /\ [][Next]_vars
L == Len(as)
(* ---- the property ---- *)
Start == out[1] = 0
Capped == \A i \in 2..L : as[i] # NaN => out[i] # NaN /\ out[i] <= as[i] /\ out[i] <= WMax
DrySteps == \A i \in 2..L : as[i] # NaN /\ ws[i] # 1 => out[i] = MinOf(as[i], WMax)
WetSteps == \A i \in 2..L : (as[i] # NaN /\ ws[i] = 1 /\ out[i-1] # NaN) =>
   \/ out[i] = MinOf(as[i], WMax)
   \/ (out[i] - out[i-1]) * par[2] = (WMax - out[i-1]) * par[1] /\ out[i] <= as[i]
MissingOnlyThere == \A i \in 2..L : (out[i] = NaN) <=> (as[i] = NaN)
\* with a rate below 1 the model never jumps: the increase is limited
NoJump == par[1] <= par[2] => \A i \in 2..L : (ws[i] = 1 /\ out[i] # NaN /\ out[i-1] # NaN)
    => (out[i] - out[i-1]) * par[2] <= (WMax - out[i-1]) * par[1]
Causal == [][SubSeq(out', 1, Len(out)) = out]_vars
Emit == PrintT("@@" \o ToJson([a |-> as, w |-> ws, p |-> par[1], q |-> par[2], wmax |-> WMax, out |-> out]))
=============================================================================
