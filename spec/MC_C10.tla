------------------------------- MODULE MC_C10 -------------------------------
(* Three links; link 3 is a neighbour of the others or not.  Time grows step by step. *)
(* obs holds what the specification derives from the signals so far.                  *)
EXTENDS C10, Json
CONSTANTS MaxT, Keep
Vals == {0, -12, NaN}
VARIABLES near3, ml, p, obs
vars == <<near3, ml, p, obs>>
Lens == <<1, 2, 8>>
Cfg(q) == [p |-> q, len |-> Lens, Q |-> 8, minlinks |-> ml, period |-> 2, need |-> 1, thP2 |-> -6, thPL2 |-> -16, two |-> 4,
           near |-> [i \in 1..3 |-> [j \in 1..3 |-> i = j \/ near3 \/ (i # 3 /\ j # 3)]]]
Obs(q) == LET c == Cfg(q)  d == Drops(c)  l == PerLen(c, d) IN
   [dp |-> d, wet |-> [i \in 1..3 |-> WetOf(c, d, l, i)], F |-> [i \in 1..3 |-> FOf(c, d, l, i)],
    base |-> [i \in 1..3 |-> Base(c, d, l, i)], near |-> c.near]
Init == /\ near3 \in BOOLEAN /\ ml \in {1, 2} /\ p = <<<<>>, <<>>, <<>>>> /\ obs = Obs(p)
Next == /\ Len(p[1]) < MaxT
        /\ \E a, b, c \in Vals : p' = <<Append(p[1], a), Append(p[2], b), Append(p[3], c)>>
        /\ obs' = Obs(p')
        /\ UNCHANGED <<near3, ml>>
Spec == Init /\ [][Next]_vars
T == Len(p[1])
dp == obs.dp
wet == obs.wet
F == obs.F
(* ---- the property ---- *)
DropNeverPositive == \A i \in 1..3, t \in 1..T : dp[i][t] # NaN => dp[i][t] <= 0
Classified == \A i \in 1..3, t \in 1..T :
   LET k == Cardinality({j \in 1..3 : obs.near[i][j] /\ dp[j][t] # NaN}) IN (wet[i][t] # NaN) <=> k > ml
\* nothing wet when no neighbour ever dropped
QuietDry == (\A i \in 1..3, t \in 1..T : dp[i][t] \in {0, NaN}) => \A i \in 1..3, t \in 1..T : wet[i][t] # 1
\* wet steps are justified by the medians at that step, the step before, or the two steps after
Justified == \A i \in 1..3, t \in 1..T : wet[i][t] = 1 =>
   \E s \in 1..T : s \in {t, t - 1, t + 1, t + 2} /\ obs.base[i][s] = 1
\* links with the same neighbourhood agree before widening
SameNeighbourhood == near3 => \A i, j \in 1..3 : obs.base[i] = obs.base[j]
FNeedsPeriod == \A i \in 1..3, t \in 1..T : (F[i][t] # NaN) => t >= 2
Hash == FoldLeftDomain(LAMBDA a, t : (a * 7 + (p[1][t] % 13) + 3 * (p[2][t] % 11) + 5 * (p[3][t] % 17)) % 1009, ml, p[1])
Emit == T = 0 \/ (T = 2 /\ Hash % 3 # 0) \/ (T >= 3 /\ Hash % Keep # 0) \/
   PrintT("@@" \o ToJson([near3 |-> near3, ml |-> ml, p |-> p, wet |-> wet, F |-> F]))
=============================================================================
