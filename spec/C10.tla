-------------------------------- MODULE C10 --------------------------------
(***************************************************************************)
(* Nearby-link classification.  p[i][t]: signal of link i at step t, len[i] *)
(* length (divides Q), all thresholds in the same units:                    *)
(*   drop P: units of p;  drop per length: units p/Q;  medians doubled.     *)
(***************************************************************************)
EXTENDS Common

\* links i and j are neighbours if all four endpoint distances are below the radius
WithinR(d, r, i, j) == \A m \in 1..4 : d[m][i][j] < r

PresentIn(s, a, b) == {k \in a..b : s[k] # NaN}
\* largest value of the last `period` steps (this one included), if enough are present
MaxPre(s, t, period, need) ==
  LET K == PresentIn(s, MaxOf(1, t - period + 1), t) IN
  IF K = {} \/ Cardinality(K) < need THEN NaN ELSE Max({s[k] : k \in K})
DropAt(s, t, period, need) ==
  LET m == MaxPre(s, t, period, need) IN IF m = NaN \/ s[t] = NaN THEN NaN ELSE s[t] - m

\* twice the median of the non-missing members of a sequence
Median2(q) ==
  LET s == SortSeq(SelectSeq(q, LAMBDA v : v # NaN), LAMBDA a, b : a < b)  n == Len(s) IN
  IF n = 0 THEN NaN ELSE IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[n \div 2 + 1]
CountNum(q) == Len(SelectSeq(q, LAMBDA v : v # NaN))

(* c: [p, len, Q, near (matrix), minlinks, period, need, thP2, thPL2, two]  (two = 2 dB) *)
Drops(c) == [i \in DOMAIN c.p |-> [t \in DOMAIN c.p[i] |-> DropAt(c.p[i], t, c.period, c.need)]]
PerLen(c, dp) == [i \in DOMAIN dp |-> [t \in DOMAIN dp[i] |-> IF dp[i][t] = NaN THEN NaN ELSE dp[i][t] * (c.Q \div c.len[i])]]
NB(c, i) == SelectSeq([k \in DOMAIN c.p |-> k], LAMBDA j : c.near[i][j])
Col(dp, nb, t) == [k \in DOMAIN nb |-> dp[nb[k]][t]]
Enough(c, dp, nb, t) == Len(nb) > c.minlinks /\ CountNum(Col(dp, nb, t)) > c.minlinks

\* classification by the medians, before the neighbouring steps are added
Base(c, dp, pl, i) ==
  LET nb == NB(c, i) IN
  [t \in DOMAIN c.p[i] |->
     IF ~Enough(c, dp, nb, t) THEN NaN
     ELSE IF Median2(Col(dp, nb, t)) < c.thP2 /\ Median2(Col(pl, nb, t)) < c.thPL2 THEN 1 ELSE 0]
Strong(c, dp, base, i, t) == t \in DOMAIN base /\ base[t] = 1 /\ dp[i][t] # NaN /\ dp[i][t] < -c.two
WetOf(c, dp, pl, i) ==
  LET base == Base(c, dp, pl, i) IN
  [t \in DOMAIN base |->
     IF base[t] = NaN THEN NaN
     ELSE IF base[t] = 1 \/ Strong(c, dp, base, i, t - 1) \/ Strong(c, dp, base, i, t + 1) \/ Strong(c, dp, base, i, t + 2)
     THEN 1 ELSE 0]
\* twice (units p/Q) the sum over the period of own specific drop minus median
FOf(c, dp, pl, i) ==
  LET nb == NB(c, i)
      term == [t \in DOMAIN c.p[i] |->
                 IF ~Enough(c, dp, nb, t) \/ pl[i][t] = NaN THEN NaN ELSE 2 * pl[i][t] - Median2(Col(pl, nb, t))]
  IN [t \in DOMAIN term |-> IF t < c.period THEN NaN ELSE SumSeq(SubSeq(term, t - c.period + 1, t))]

Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE LET n == Len(e.p)
           \* distances are given in the order of e.ids2, links in the order of e.ids
           pos == [i \in 1..n |-> CHOOSE k \in DOMAIN e.ids2 : e.ids2[k] = e.ids[i]]
           c == [p |-> e.p, len |-> e.len, Q |-> e.Q, minlinks |-> e.minlinks, period |-> e.period, need |-> e.need,
                 thP2 |-> e.thP2, thPL2 |-> e.thPL2, two |-> e.two,
                 near |-> [i \in 1..n |-> [j \in 1..n |-> WithinR(e.d, e.radius, pos[i], pos[j])]]]
           dp == Drops(c)  pl == PerLen(c, dp)
           T == Len(e.p[1])
       IN IF ~e.labels \/ Len(e.wet) # n \/ Len(e.F) # n THEN {"shape or labels"}
          ELSE UNION { LET w == WetOf(c, dp, pl, i)  f == FOf(c, dp, pl, i) IN
             UNION { IF e.wet[i][t] = w[t] THEN {}
                     ELSE IF w[t] = 0 /\ e.wet[i][t] = 1 /\ (t = 1 \/ t >= T - 1) THEN {"nearby-shift-edges"}
                     ELSE IF w[t] = NaN \/ e.wet[i][t] = NaN THEN {"classified when it should not or vice versa"}
                     ELSE {"classification"} : t \in 1..T }
             \cup Fail(e.F[i] # f, "F score")
            : i \in 1..n }
=============================================================================
