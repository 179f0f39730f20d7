-------------------------------- MODULE C29 --------------------------------
(***************************************************************************)
(* The processing chain of one series: samples with wet flag -> baseline    *)
(* (C01) -> wet antenna attenuation (C06) -> attenuation -> rain rate (C04). *)
(* The chain of a link set is the product of the chains of its series.       *)
(* Attenuation in scaled units; the power law with exponent 1 and the factor *)
(* g (attenuation per rain rate) is exact.                                   *)
(***************************************************************************)
EXTENDS Common
BC == INSTANCE C01
WA == INSTANCE C06
KR == INSTANCE C04

\* excess of the signal over baseline and wet antenna attenuation
Excess(x, b, v) == IF x = NaN \/ b = NaN \/ v = NaN THEN NaN ELSE x - b - v

\* par: [n, waa (BOOLEAN), wmax, p, q, g, amin]; rain is represented by the attenuation g*R it stands for
Chain0(par) == [bc |-> BC!Init0(par.n), v |-> NaN, xs |-> <<>>, ws |-> <<>>, b |-> <<>>, waa |-> <<>>, A |-> <<>>, R |-> <<>>]
ChainStep(s, par, x, w) ==
  LET b == BC!StepOut(s.bc, x, w)
      a == WA!Att(x, b)
      v == IF ~par.waa THEN 0 ELSE IF s.xs = <<>> THEN 0 ELSE WA!Next1(s.v, a, w, par.wmax, par.p, par.q)
      e == Excess(x, b, v)
  IN [bc |-> BC!Step(s.bc, x, w), v |-> v, xs |-> Append(s.xs, x), ws |-> Append(s.ws, w), b |-> Append(s.b, b),
      waa |-> Append(s.waa, v), A |-> Append(s.A, e), R |-> Append(s.R, IF e # NaN /\ e < par.amin THEN 0 ELSE e)]

\* the four statements on a finished chain (also used on recorded ones; tol: unit of rounding, amin: smallest excess with rain)
Gaps(s)      == \A i \in DOMAIN s.xs : (s.R[i] = NaN) <=> (s.xs[i] = NaN \/ s.b[i] = NaN \/ s.waa[i] = NaN)
Dry(s, tol)  == \A i \in DOMAIN s.xs : (IsNum(s.xs[i]) /\ IsNum(s.b[i]) /\ IsNum(s.waa[i])) => (s.xs[i] <= s.b[i] + s.waa[i] - tol => s.R[i] = 0)
NonNeg(s)    == \A i \in DOMAIN s.R : IsNum(s.R[i]) => s.R[i] >= 0
Monotone(s, tol) == \A i, j \in DOMAIN s.R :
                (IsNum(s.R[i]) /\ IsNum(s.R[j]) /\ Excess(s.xs[i], s.b[i], s.waa[i]) + tol <= Excess(s.xs[j], s.b[j], s.waa[j])) => s.R[i] <= s.R[j]
Steady(s)    == \A i \in DOMAIN s.R : (s.ws[i] = 0 /\ IsNum(s.R[i])) => s.R[i] = 0

\* --- recorded executions of the real chain on a link set ---
\* e.series: per link and channel [x, ws, n, b, waa, R, kind], e.labels: dimensions, coordinates kept by all steps,
\* e.alone: series whose result in the set differs from the result of the series on its own
One(s) ==
  LET t == [xs |-> s.x, ws |-> s.w, b |-> s.b, waa |-> s.waa, R |-> s.R] IN
  IF Len(s.b) # Len(s.x) \/ Len(s.waa) # Len(s.x) \/ Len(s.R) # Len(s.x) THEN {"length"}
  ELSE BC!Bad([exc |-> "", x |-> s.x, w |-> s.w, n |-> s.n, out |-> s.b])
   \cup (IF s.kind = "schleiss" THEN WA!Bad([exc |-> "", x |-> s.x, b |-> s.b, w |-> s.w, wmax |-> s.wmax, p |-> s.p, q |-> s.q, out |-> s.waa]) ELSE {})
   \cup Fail(~Gaps(t), "gaps") \cup Fail(~Dry(t, 0), "rain without excess") \cup Fail(~NonNeg(t), "negative rain")
   \cup Fail(~Monotone(t, 2), "less rain for more excess")
   \cup Fail(\E i \in DOMAIN s.x : s.w[i] = 0 /\ i > s.n /\ IsNum(s.R[i]) /\ s.R[i] # 0 /\ s.kind # "inverse", "rain in a dry step")
Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE Fail(~e.labels, "dimensions or labels") \cup Fail(e.alone # <<>>, "series depend on each other")
    \cup UNION {One(e.series[i]) : i \in DOMAIN e.series}
=============================================================================
