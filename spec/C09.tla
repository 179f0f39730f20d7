-------------------------------- MODULE C09 --------------------------------
(***************************************************************************)
(* Distances between link endpoints.  On a meridian or the equator a degree *)
(* is Deg units of 0.1 m (earth radius 6367 km); for arbitrary positions    *)
(* recorded executions carry an independently computed reference.           *)
(***************************************************************************)
EXTENDS Common
Deg == 1111251   \* 6367 km * pi / 180 = 111.125113 km

\* which sites the four matrices connect: <<from, to>>
Mats == <<<<"a", "a">>, <<"a", "b">>, <<"b", "a">>, <<"b", "b">>>>
\* links: sequence of [a |-> position, b |-> position] in degrees along one great circle; the
\* distance is the shorter way round, up to 180 degrees for opposite points
Way(p, q) == LET d == Abs(p - q) % 360 IN IF d > 180 THEN 360 - d ELSE d
Entry(links, m, i, j) == IF i = j THEN 0 ELSE Way(links[i][Mats[m][1]], links[j][Mats[m][2]])

(* e.d[m][i][j]: matrices by label in the order of the given links, e.ref likewise without the
   diagonal rule, e.perm[m][i][j]: the same after giving the links in another order *)
Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE LET n == e.n  I == 1..n IN
  IF Len(e.d) # 4 \/ (\E m \in 1..4 : Len(e.d[m]) # n \/ \E i \in I : Len(e.d[m][i]) # n) THEN {"shape"}
  ELSE Fail(~e.labels, "labels")
    \cup Fail(\E m \in 1..4, i \in I, j \in I : ~IsNum(e.d[m][i][j]), "missing entry")
    \cup Fail(\E m \in 1..4, i \in I : e.d[m][i][i] # 0, "distance to itself not 0")
    \cup Fail(\E m \in 1..4, i \in I, j \in I : i # j /\ ~Near(e.d[m][i][j], e.ref[m][i][j], e.tol), "distance")
    \cup Fail(\E i \in I, j \in I : ~Near(e.d[2][i][j], e.d[3][j][i], 1), "a_to_all_b is not the transpose of b_to_all_a")
    \cup Fail(\E m \in {1, 4}, i \in I, j \in I : ~Near(e.d[m][i][j], e.d[m][j][i], 1), "not symmetric")
    \cup Fail(e.perm # e.d, "depends on the order of links")
=============================================================================
