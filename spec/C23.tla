-------------------------------- MODULE C23 --------------------------------
(***************************************************************************)
(* MLP classification: which K values of both channels belong to a step,    *)
(* and when the step is missing.  Series in integer units u; the detrended  *)
(* series in u/2.                                                           *)
(***************************************************************************)
EXTENDS Common
Online(sel) == sel \in {"rad_online", "rg_online"}
Models == {"rad", "rg", "rad_online", "rg_online"}
Med2(q) ==
  LET s == SortSeq(q, LAMBDA a, b : a < b)  n == Len(s) IN
  IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[n \div 2 + 1]
\* twice the median of the centred window of M steps, missing with fewer than P values
Roll2(x, t, M, P) ==
  LET q == SelectSeq(SubSeq(x, MaxOf(1, t - M \div 2), MinOf(Len(x), t - M \div 2 + M - 1)), LAMBDA v : v # NaN) IN
  IF Len(q) < P THEN NaN ELSE Med2(q)
Dev2(x, t, M, P) == LET r == Roll2(x, t, M, P) IN IF x[t] = NaN \/ r = NaN THEN NaN ELSE 2 * x[t] - r
Diff2(x, t) == IF t = 1 THEN NaN ELSE IF x[t] = NaN \/ x[t - 1] = NaN THEN NaN ELSE 2 * (x[t] - x[t - 1])
Detrend(sel, x, t, M, P) == IF Online(sel) THEN Diff2(x, t) ELSE Dev2(x, t, M, P)
\* first step of the window of step t
First0(sel, t, K) == IF Online(sel) THEN t - K + 1 ELSE t - K \div 2
\* d1, d2: detrended series; 0 if the row of step t is missing, otherwise the first step of its window
Row(sel, d1, d2, t, K) ==
  LET a == First0(sel, t, K) IN
  IF a < 1 \/ a + K - 1 > Len(d1) THEN 0
  ELSE IF \E j \in a..(a + K - 1) : d1[j] = NaN \/ d2[j] = NaN THEN 0 ELSE a

\* e.p[a]: probability (dry, wet; in 1e-6) which the selected model gives for the window starting at a (computed by the driver)
Bad(e) ==
  IF e.sel \notin Models THEN Fail(e.exc # "ValueError", "unknown model not rejected")
  ELSE IF e.exc # "" THEN {"raised"}
  ELSE IF Len(e.out) # Len(e.x1) THEN {"not one row per step"}
  ELSE Fail(\E i \in DOMAIN e.at : LET t == e.at[i] IN e.d1[t] # Detrend(e.sel, e.x1, t, 720, 120) \/ e.d2[t] # Detrend(e.sel, e.x2, t, 720, 120), "driver: detrended series")
       \cup UNION {LET a == Row(e.sel, e.d1, e.d2, t, 40) IN
             IF a = 0 THEN Fail(e.out[t] # <<NaN, NaN>>, "value where a needed value is missing")
             ELSE IF ~IsNum(e.out[t][1]) \/ ~IsNum(e.out[t][2]) THEN {"missing though all values are there"}
             ELSE Fail(\E c \in 1..2 : e.out[t][c] < 0 \/ e.out[t][c] > 1000000, "not a probability")
                  \cup Fail(~Near(e.out[t][1], e.p[a][1], 2) \/ ~Near(e.out[t][2], e.p[a][2], 2), "not the probability of the selected model for the window")
             : t \in DOMAIN e.out}
=============================================================================
