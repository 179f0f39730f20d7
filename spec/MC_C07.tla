------------------------------- MODULE MC_C07 -------------------------------
EXTENDS C07, Json
VARIABLES kind, c
vars == <<kind, c>>
N == Len(Film)
Init == \/ /\ kind = "leijnse"
           /\ c \in [row : DOMAIN Rows, i0 : 1..N, m : 0..6, n : 1..3, zero : BOOLEAN]
           /\ c.m % c.n = 0 /\ FilmIndex(c.i0, c.m, c.n) <= N
        \/ /\ kind = "pastorek"
           /\ c \in [amax : {1, 5, 14}, j : 1..3, z : {1, 2, 3}, k : 0..9]   \* zeta: 1, 2, 1/2
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* R and R^zeta of the Pastorek cases
RR == IF kind = "pastorek" THEN (IF c.z = 3 THEN c.k * c.k ELSE c.k) ELSE 0
RZ == IF kind = "pastorek" THEN (IF c.z = 2 THEN c.k * c.k ELSE c.k) ELSE 0
val == IF kind = "pastorek" THEN Pastorek(c.amax, c.j, RZ) ELSE Leijnse(c.row, c.i0, c.m, c.n, c.zero)
(* ---- properties of the reference ---- *)
Bounded == kind = "pastorek" => val >= 0 /\ val <= c.amax * Pow2(20)
ZeroRain == (kind = "pastorek" /\ c.k = 0) \/ (kind = "leijnse" /\ c.zero) => val = 0
Positive == kind = "leijnse" /\ ~c.zero => val > 0
Thicker == kind = "leijnse" => \A i \in 1..(N-1) : Rows[c.row].waa[i] < Rows[c.row].waa[i+1]
Emit == PrintT("@@" \o (IF kind = "pastorek"
   THEN ToJson([kind |-> kind, amax |-> c.amax, j |-> c.j, z |-> c.z, R |-> RR, val |-> val])
   ELSE ToJson([kind |-> kind, f |-> Rows[c.row].f, T |-> Rows[c.row].T, ant |-> Rows[c.row].ant,
                film0 |-> Film[c.i0], m |-> c.m, n |-> c.n, zero |-> c.zero, val |-> val])))
=============================================================================
