------------------------------- MODULE MC_C12 -------------------------------
EXTENDS C12, Json
CONSTANTS MaxN, Keep
VARIABLES par, st, res
vars == <<par, st, res>>
Q == <<0, 0>>
Pars == {[p |-> 2, nnear |-> 2, maxd2 |-> NaN], [p |-> 2, nnear |-> 3, maxd2 |-> 6], [p |-> 2, nnear |-> 2, maxd2 |-> 4],
         [p |-> 1, nnear |-> 2, maxd2 |-> 10], [p |-> 1, nnear |-> 8, maxd2 |-> NaN], [p |-> 3, nnear |-> 3, maxd2 |-> NaN],
         [p |-> 0, nnear |-> 2, maxd2 |-> 3]}
Plane == {<<0, 0>>, <<1, 0>>, <<-1, 1>>, <<0, -2>>, <<2, 1>>, <<2, -2>>, <<0, 3>>}
Line == {<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<0, 2>>, <<-3, 0>>, <<0, -4>>}
Where(p) == IF p \in {2, 0} THEN Plane ELSE Line
Z == {-6, 4, 30, NaN}
Res(s, pr) == Results(s, Q, pr.nnear, pr.maxd2, LAMBDA d : Wp(pr.p, d))
Init == \E p \in Pars : \E a \in Where(p.p), z \in Z : par = p /\ st = <<<<a[1], a[2], z>>>> /\ res = Res(<<<<a[1], a[2], z>>>>, p)
Next == /\ Len(st) < MaxN
        /\ \E a \in Where(par.p), z \in Z :
             /\ Cardinality({i \in DOMAIN st : st[i][3] = NaN}) + (IF z = NaN THEN 1 ELSE 0) <= 1
             /\ st' = Append(st, <<a[1], a[2], z>>) /\ res' = Res(st', par)
        /\ UNCHANGED par
Spec == Init /\ [][Next]_vars
(* ---- the property ---- *)
Within(i, strict) == par.maxd2 = NaN \/ D2(st[i], Q) < par.maxd2 \/ (~strict /\ D2(st[i], Q) = par.maxd2)
NonEmpty == res # {}
MissingOnlyIf == Missing \in res => (\A i \in DOMAIN st : ~Within(i, TRUE)) \/ \E i \in DOMAIN st : st[i][3] = NaN
NoStationMissing == (\A i \in DOMAIN st : ~Within(i, FALSE)) => res = {Missing}
Between == \A r \in res : r # Missing =>
     /\ \E i \in DOMAIN st : Within(i, FALSE) /\ st[i][3] # NaN /\ st[i][3] * r[2] <= r[1]
     /\ \E i \in DOMAIN st : Within(i, FALSE) /\ st[i][3] # NaN /\ st[i][3] * r[2] >= r[1]
ExactAtStation == (\E i \in DOMAIN st : D2(st[i], Q) = 0) => \A r \in res : \E i \in DOMAIN st : D2(st[i], Q) = 0 /\ r = <<st[i][3], 1>>
OrderFree == Res(Reverse(st), par) = res
\* a station farther away than nnear others, or out of range, has no influence
Local == [][LET n == Len(st') IN
     (\/ (Cardinality({i \in DOMAIN st : D2(st[i], Q) < D2(st'[n], Q)}) >= par.nnear)
      \/ (par.maxd2 # NaN /\ D2(st'[n], Q) > par.maxd2)) => res' = res]_vars
Hash == FoldLeft(LAMBDA a, s : (a * 5 + (s[1] % 7) + 3 * (s[2] % 5) + (s[3] % 11)) % 10007, par.nnear + par.p, st)
Emit == (Len(st) > 2 /\ Hash % Keep # 0) \/ PrintT("@@" \o ToJson([p |-> par.p, nnear |-> par.nnear, maxd2 |-> par.maxd2, st |-> st, res |-> SetToSeq(res)]))
=============================================================================
