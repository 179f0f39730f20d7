------------------------------- MODULE MC_C22 -------------------------------
(* The sampling loop as a machine: selected links one after the other, one step per time.  Its samples are *)
(* the complete finite windows, and the statistics accumulated over them those used for scaling.            *)
EXTENDS C22, Json
CONSTANTS Ls, Ts, Vs, Qs, Two
VARIABLES par, i, t, cells, st
vars == <<par, i, t, cells, st>>
Val(l, k, v) == ((5 * l + 3 * k * k + 4 * v + 2 * l * k) % 9) + v
Sels(L) == {s \in UNION {[1..n -> 1..L] : n \in 1..L} : \A a, b \in DOMAIN s : a # b => s[a] # s[b]}
Init ==
  \E L \in Ls, T \in Ts, V \in Vs, q \in Qs :
    /\ \E sel \in Sels(L), m1 \in {<<0, 0>>} \cup ((1..L) \X (1..T)), m2 \in IF Two THEN {<<0, 0>>} \cup ((1..L) \X (1..T)) ELSE {<<0, 0>>} :
       LET d == [l \in 1..L |-> [k \in 1..T |-> [v \in 1..V |-> IF <<l, k>> = m1 /\ v = V THEN NaN ELSE IF <<l, k>> = m2 /\ v = 1 THEN PInf ELSE Val(l, k, v)]]] IN
       /\ par = [data |-> d, sel |-> sel, q |-> q]
       /\ i = 1 /\ t = 0 /\ cells = {} /\ st = [v \in 1..V |-> Zero]
Next ==
  /\ i <= Len(par.sel)
  /\ LET l == par.sel[i]  T == Len(par.data[l]) IN
     IF t < T THEN
       /\ t' = t + 1 /\ i' = i
       /\ IF Valid(par.data[l], par.q, t + 1)
          THEN /\ cells' = cells \cup {<<l, t + 1>>}
               /\ st' = [v \in DOMAIN st |-> Add(st[v], par.data[l], par.q, t + 1, v)]
          ELSE UNCHANGED <<cells, st>>
     ELSE t' = 0 /\ i' = i + 1 /\ UNCHANGED <<cells, st>>
  /\ UNCHANGED par
Spec == Init /\ [][Next]_vars
End == i > Len(par.sel)
Samples == End => cells = Cells(par.data, par.sel, par.q)
Statistics == End => \A v \in DOMAIN st : st[v] = Stats(par.data, cells, par.q, v)
\* Cauchy-Schwarz: the variance is never negative; order of the links irrelevant
Variance == End => \A v \in DOMAIN st : st[v].n * st[v].q >= st[v].s * st[v].s
NotSelected == \A c \in cells : \E k \in DOMAIN par.sel : par.sel[k] = c[1]
Emit == ~End \/ PrintT("@@" \o ToJson([data |-> par.data, sel |-> par.sel, q |-> par.q, cells |-> SetToSeq(cells), st |-> st]))
=============================================================================
