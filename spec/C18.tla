-------------------------------- MODULE C18 --------------------------------
(***************************************************************************)
(* Grid reference of a link.  Pixels have edge length 2, pixel <<i, j>>     *)
(* (row, column, from 0) covers x in (2j, 2j+2), y in (2i, 2i+2).  A link   *)
(* is walked in unit steps along a row, a column or a diagonal; every step  *)
(* lies in one pixel, so the fraction of the path in a pixel is the number  *)
(* of steps in it over all steps.                                           *)
(***************************************************************************)
EXTENDS Common
PixelOf(x, y, dx, dy) == <<(2 * y + dy) \div 4, (2 * x + dx) \div 4>>   \* of the step's middle
\* grid time steps used: strictly between the first time of channel 1 and the last of channel 2
TimesUsed(gt, t1, t2) == SelectSeq(gt, LAMBDA t : t > t1 /\ t < t2)
\* label of a sample: next grid time (right), last grid time (left); NaN: none
LabelOf(t, gts, label) ==
  LET C == {g \in Range(gts) : IF label = "right" THEN g >= t ELSE g <= t} IN
  IF C = {} THEN NaN ELSE IF label = "right" THEN Min(C) ELSE Max(C)
GroupOf(g, ts, gts, label) == {i \in DOMAIN ts : LabelOf(ts[i], gts, label) = g}

MeanOk(G, v, m) == IsNum(m) /\ Abs(m * Cardinality(G) - 1000 * FoldSet(LAMBDA i, a : a + v[i], 0, G)) <= Cardinality(G)

Bad(e) ==
  CASE e.k = "series" ->  \* want: weighted sums by the driver's own path fractions (wsum: their sum), scaled
       IF e.exc # "" THEN {"raised"}
       ELSE LET u == SelectSeq([i \in DOMAIN e.gt |-> i], LAMBDA i : e.gt[i] > e.t1 /\ e.gt[i] < e.t2) IN
         Fail(e.times # [k \in DOMAIN u |-> e.gt[u[k]]], "time steps")
         \cup Fail(Len(e.out) # Len(u) \/ (Len(e.out) = Len(u) /\ \E k \in DOMAIN u : ~Near(e.out[k], e.want[u[k]], 3)), "path weighted sum")
         \cup Fail(e.const # NaN /\ \E k \in DOMAIN e.out : ~Near(e.out[k], e.const, 3), "constant field")
    [] e.k = "resample" ->
       IF e.exc # "" THEN {"raised"}
       ELSE LET L == [i \in DOMAIN e.ts |-> LabelOf(e.ts[i], e.gts, e.label)]  want == Range(L) \ {NaN} IN
         Fail(Range(e.idx) # want \/ Len(e.idx) # Cardinality(want), "time stamps")
         \cup Fail(\E k \in DOMAIN e.idx : LET G == {i \in DOMAIN L : L[i] = e.idx[k]} IN
                IF {i \in G : e.v[i] # NaN} = {} THEN e.mean[k] # NaN
                ELSE ~MeanOk({i \in G : e.v[i] # NaN}, e.v, e.mean[k]), "mean of an interval")
         \cup Fail(~e.unchanged, "input changed")
=============================================================================
