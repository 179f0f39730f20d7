------------------------------- MODULE MC_C25 -------------------------------
(* Model: transmit levels constant (one per behaviour), received levels grow sample by sample. *)
EXTENDS C25, Json
CONSTANTS MaxLen
VARIABLES window, rmin, rmax
vars == <<window, rmin, rmax>>
Scale == 4
Bias == 3
Pairs == {<<-160, -150>>, <<-200, -190>>, <<-210, -140>>, <<NaN, -170>>, <<-181, NaN>>}
Init == window \in {1, 2, 3} /\ \E p \in Pairs : rmin = <<p[1]>> /\ rmax = <<p[2]>>
Next == /\ Len(rmin) < MaxLen
        /\ \E p \in Pairs : rmin' = Append(rmin, p[1]) /\ rmax' = Append(rmax, p[2])
        /\ UNCHANGED window
Spec == Init /\ [][Next]_vars
L == Len(rmin)
tx == [i \in 1..L |-> 40]
out == Expected(tx, tx, rmin, rmax, Bias, window, Scale)
NonNegative == \A i \in 1..L : out[i] # NaN => out[i] >= 0
MissingStart == \A i \in 1..L : i <= window => out[i] = NaN
NoneMissing == (\E i \in 1..L : rmin[i] # NaN) /\ (\E i \in 1..L : rmax[i] # NaN)
   => \A i \in 1..L : i > window => out[i] # NaN
Complete == \A i \in 1..L : rmin[i] # NaN /\ rmax[i] # NaN
\* the window reaches exactly window steps back
WindowReach == Complete => \A i \in 1..L : i > window =>
   /\ \A k \in (i - window)..i : out[i] >= (40 - rmin[i] - Bias) - (40 - rmax[k] + Bias)
   /\ \/ out[i] = 0
      \/ \E k \in (i - window)..i : out[i] = (40 - rmin[i] - Bias) - (40 - rmax[k] + Bias)
Emit == PrintT("@@" \o ToJson([window |-> window, rmin |-> rmin, rmax |-> rmax, tx |-> 40, out |-> out]))
=============================================================================
