-------------------------------- MODULE IDW --------------------------------
(***************************************************************************)
(* Inverse distance weighting.  A station is <<x, y, z>> with integer       *)
(* coordinates, z a value or NaN.  A result is <<num, den>> (the value      *)
(* num/den); <<NaN, 1>> is a missing value.  Which one of several equally   *)
(* distant stations counts as nearer is left open, as is whether a station  *)
(* exactly at the maximum distance is within it: Results is the set of the  *)
(* admissible results.                                                      *)
(***************************************************************************)
EXTENDS Common
Missing == <<NaN, 1>>
D2(s, q) == (s[1] - q[1]) * (s[1] - q[1]) + (s[2] - q[2]) * (s[2] - q[2])

\* admissible sets of used stations (indices); maxd2 = NaN: no limit
UsedSets(st, q, nnear, maxd2) ==
  LET Inside == {i \in DOMAIN st : maxd2 = NaN \/ D2(st[i], q) < maxd2}
      Border == {i \in DOMAIN st : maxd2 # NaN /\ D2(st[i], q) = maxd2}
      Closest(C) == LET k == MinOf(nnear, Cardinality(C)) IN
        IF k = 0 THEN {{}} ELSE
        \* the distance of the k-th closest: everything nearer is used, and some of the equally distant ones
        UNION {LET N == {i \in C : D2(st[i], q) < b}
                   E == {i \in C : D2(st[i], q) = b}
               IN IF Cardinality(N) < k /\ Cardinality(N) + Cardinality(E) >= k
                  THEN {N \cup U : U \in kSubset(k - Cardinality(N), E)} ELSE {} : b \in {D2(st[i], q) : i \in C}}
  IN UNION {Closest(Inside \cup B) : B \in SUBSET Border}

\* exact weights: W(d2) is the integer weight of squared distance d2
MeanOf(st, q, U, W(_)) ==
  IF U = {} THEN {Missing}
  ELSE LET At == {i \in U : D2(st[i], q) = 0} IN
       IF At # {} THEN {<<st[i][3], 1>> : i \in At}
       ELSE IF \E i \in U : st[i][3] = NaN THEN {Missing}
       ELSE {<<FoldSet(LAMBDA i, a : a + W(D2(st[i], q)) * st[i][3], 0, U),
               FoldSet(LAMBDA i, a : a + W(D2(st[i], q)), 0, U)>>}
Results(st, q, nnear, maxd2, W(_)) == UNION {MeanOf(st, q, U, W) : U \in UsedSets(st, q, nnear, maxd2)}

\* p = 2 for arbitrary lattice distances: weights are the products of the other squared distances
Prod2(st, q, V) == FoldSet(LAMBDA j, a : a * D2(st[j], q), 1, V)
MeanOf2(st, q, U) ==
  IF U = {} THEN {Missing}
  ELSE LET At == {i \in U : D2(st[i], q) = 0} IN
       IF At # {} THEN {<<st[i][3], 1>> : i \in At}
       ELSE IF \E i \in U : st[i][3] = NaN THEN {Missing}
       ELSE {<<FoldSet(LAMBDA i, a : a + Prod2(st, q, U \ {i}) * st[i][3], 0, U),
               FoldSet(LAMBDA i, a : a + Prod2(st, q, U \ {i}), 0, U)>>}
Results2(st, q, nnear, maxd2) == UNION {MeanOf2(st, q, U) : U \in UsedSets(st, q, nnear, maxd2)}

\* weights 1/d^p scaled to integers: any lattice distance for p = 2, collinear points otherwise
Sqrt == [n \in {0, 1, 4, 9, 16, 25, 36, 64} |-> CASE n = 0 -> 0 [] n = 1 -> 1 [] n = 4 -> 2 [] n = 9 -> 3 [] n = 16 -> 4 [] n = 25 -> 5 [] n = 36 -> 6 [] n = 64 -> 8]
Wp(p, d2) == CASE p = 2 -> 3600 \div d2
               [] p = 1 -> 120 \div Sqrt[d2]
               [] p = 3 -> 1728 \div (d2 * Sqrt[d2])
               [] p = 0 -> 1
=============================================================================
