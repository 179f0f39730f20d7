-------------------------------- MODULE C12 --------------------------------
(* The value interpolated at a point. *)
EXTENDS IDW
\* recorded: stations with lattice coordinates, weights e.w[i] measured by the driver's own formula
\* (scaled to the nearest station), values e.st[i][3] (small integers), result e.out scaled by e.S
ResM(e, k, U) ==
  IF U = {} THEN {NaN}
  ELSE LET At == {i \in U : D2(e.st[i], e.q[k]) = 0} IN
       IF At # {} THEN {IF e.st[i][3] = NaN THEN NaN ELSE e.st[i][3] * e.S : i \in At}
       ELSE IF \E i \in U : e.st[i][3] = NaN THEN {NaN}
       ELSE {LET num == FoldSet(LAMBDA i, a : a + e.w[k][i] * e.st[i][3], 0, U)
                 den == FoldSet(LAMBDA i, a : a + e.w[k][i], 0, U) IN (num * e.S) \div den}
Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE IF Len(e.out) # Len(e.q) THEN {"length"}
  ELSE UNION {
    LET us == UsedSets(e.st, e.q[k], e.nnear, e.maxd2)
        rs == UNION {ResM(e, k, U) : U \in us} IN
    Fail(~\E r \in rs : Near(e.out[k], r, e.tol), IF rs = {NaN} THEN "no station in range or missing value used" ELSE "weighted mean of the nearest stations")
    \cup Fail(IsNum(e.out[k]) /\ ~\E U \in us : U # {}
               /\ (\E i \in U : e.st[i][3] # NaN /\ e.st[i][3] * e.S <= e.out[k] + 1)
               /\ (\E i \in U : e.st[i][3] # NaN /\ e.st[i][3] * e.S >= e.out[k] - 1), "outside the range of the used values")
    : k \in DOMAIN e.q }
=============================================================================
