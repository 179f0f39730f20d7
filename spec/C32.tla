-------------------------------- MODULE C32 --------------------------------
(***************************************************************************)
(* Summary comparison of a link with a reference: the superseded error      *)
(* rates, which count and warn, and the correlation over common times.      *)
(***************************************************************************)
EXTENDS Common
CT == INSTANCE C15

\* --- error rates ------------------------------------------------------------
\* wet = 1, dry = 0, anything else (missing) neither; the missing state of the other series matters only for the counted hits
Cnt(a, b, x, y) == FoldLeftDomain(LAMBDA c, i : c + CT!B2N(a[i] = x /\ b[i] = y), 0, a)
All(a, x) == FoldLeftDomain(LAMBDA c, i : c + CT!B2N(a[i] = x), 0, a)
FalseWet(t, p) == [n |-> Cnt(t, p, 0, 1), d |-> All(t, 0)]
Missed(t, p)   == [n |-> Cnt(t, p, 1, 0), d |-> All(t, 1)]

\* --- correlation over common times -------------------------------------------
\* a series: function from times to values; link values of NaN are missing
Pairs(ref, link) == {t \in DOMAIN ref \cap DOMAIN link : ref[t] # NaN /\ link[t] # NaN}
Sum(S, F(_)) == FoldSet(LAMBDA t, a : F(t) + a, 0, S)
Moments(ref, link) ==
  LET P == Pairs(ref, link)  n == Cardinality(P)
      sx == Sum(P, LAMBDA t : ref[t])  sy == Sum(P, LAMBDA t : link[t]) IN
  [n |-> n, num |-> n * Sum(P, LAMBDA t : ref[t] * link[t]) - sx * sy,
   vx |-> n * Sum(P, LAMBDA t : ref[t] * ref[t]) - sx * sx,
   vy |-> n * Sum(P, LAMBDA t : link[t] * link[t]) - sy * sy]

\* --- recorded executions -------------------------------------------------------
\* kind "rates": t, p series; r: rates in 1e-5 by function; warned: number of deprecation warnings per call
\* kind "corr": ref, link as sequences of <<time, value>>; r in 1e-4; den: 10 * sqrt(vx * vy), measured
AsFun(s) == [t \in {s[i][1] : i \in DOMAIN s} |-> (CHOOSE q \in Range(s) : q[1] = t)[2]]
Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE IF e.kind = "rates" THEN
    LET f == FalseWet(e.t, e.p)  g == Missed(e.t, e.p) IN
    UNION {Fail(~CT!Rate(e.r[i].f, f.n, f.d), "false wet rate of " \o e.r[i].name)
           \cup Fail(~CT!Rate(e.r[i].m, g.n, g.d), "missed wet rate of " \o e.r[i].name)
           \cup Fail(e.r[i].warned # 1, "deprecation warning of " \o e.r[i].name) : i \in DOMAIN e.r}
  ELSE LET m == Moments(AsFun(e.ref), AsFun(e.link)) IN
    IF m.n < 2 THEN Fail(IsNum(e.r), "correlation without two pairs")
    ELSE IF m.vx = 0 \/ m.vy = 0 THEN {}
    ELSE Fail(~IsNum(e.r) \/ Abs(e.r * e.den - m.num * 100000) > 6000 + e.den, "correlation")
         \cup Fail(IsNum(e.r) /\ Abs(e.r) > 10000, "correlation beyond one")
=============================================================================
