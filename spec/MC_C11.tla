------------------------------- MODULE MC_C11 -------------------------------
EXTENDS C11, Json
CONSTANTS MaxT, Keep
VARIABLES par, pmin, pmax, wet, r4, cmin, cmax, rain
vars == <<par, pmin, pmax, wet, r4, cmin, cmax, rain>>
\* signal pairs: dry level, slightly below, far below (max also / not below), missing
Pairs == {<<-40, -38>>, <<-45, -37>>, <<-60, -50>>, <<NaN, -39>>}
Pars == {[n |-> 2, minp |-> 1, waa |-> 8, al |-> 1], [n |-> 3, minp |-> 2, waa |-> 0, al |-> 2]}
Init == par \in Pars /\ pmin = <<>> /\ pmax = <<>> /\ wet = <<>> /\ r4 = <<>> /\ cmin = <<>> /\ cmax = <<>> /\ rain = <<>>
Next == /\ Len(pmin) < MaxT
        /\ \E p \in Pairs, w \in {0, 1, NaN} :
             LET a == Append(pmin, p[1])  b == Append(pmax, p[2])  c == Append(wet, w)
                 r == Ref4(a, b, c, Len(a), par.n, par.minp)
                 x == Cmin(p[1], w, r)  y == Cmax(p[2], x, r) IN
             /\ pmin' = a /\ pmax' = b /\ wet' = c /\ r4' = Append(r4, r)
             /\ cmin' = Append(cmin, x) /\ cmax' = Append(cmax, y)
             /\ rain' = Append(rain, Rain16(r, x, y, par.waa, par.al))
        /\ UNCHANGED par
Spec == Init /\ [][Next]_vars
T == Len(pmin)
(* ---- the property ---- *)
WetNeverContributes == \A t \in 1..T : r4[t] # NaN => \E k \in MaxOf(1, t - par.n + 1)..t : wet[k] = 0 /\ pmin[k] # NaN
RefInRange == \A t \in 1..T : r4[t] # NaN =>
   LET K == {k \in MaxOf(1, t - par.n + 1)..t : wet[k] = 0 /\ pmin[k] # NaN /\ pmax[k] # NaN} IN
   /\ Cardinality(K) >= par.minp
   /\ \E k \in K : 2 * (pmin[k] + pmax[k]) <= r4[t]
   /\ \E k \in K : 2 * (pmin[k] + pmax[k]) >= r4[t]
NotAboveRef == \A t \in 1..T : r4[t] # NaN => cmin[t] <= r4[t] /\ cmax[t] <= r4[t]
DryIsRef == \A t \in 1..T : wet[t] # 1 => cmin[t] = r4[t] /\ cmax[t] = r4[t]
RainNonNegative == \A t \in 1..T : rain[t] # NaN => rain[t] >= 0
NoRainWhenDry == \A t \in 1..T : wet[t] # 1 /\ rain[t] # NaN => rain[t] = 0
Causal == [][SubSeq(r4', 1, T) = r4 /\ SubSeq(rain', 1, T) = rain]_vars
Hash == FoldLeftDomain(LAMBDA a, t : (a * 7 + (pmin[t] % 13) + 3 * (wet[t] % 11)) % 1009, par.n, pmin)
Emit == T = 0 \/ (T > 2 /\ Hash % Keep # 0) \/ PrintT("@@" \o ToJson([n |-> par.n, minp |-> par.minp, waa |-> par.waa, al |-> par.al, pmin |-> pmin, pmax |-> pmax,
     wet |-> wet, ref |-> r4, cmin |-> cmin, cmax |-> cmax, rain |-> rain]))
=============================================================================
