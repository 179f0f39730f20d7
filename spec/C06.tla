-------------------------------- MODULE C06 --------------------------------
(***************************************************************************)
(* Schleiss wet antenna attenuation: a machine with the previous value as   *)
(* state.  The rate 3*delta_t/tau is the fraction p/q.                      *)
(***************************************************************************)
EXTENDS Common

\* target of the exponential approach
Approach(prev, wmax, p, q) == prev + ((wmax - prev) * p) \div q

\* a: attenuation (or NaN), w: flag, prev: previous value (or NaN)
Next1(prev, a, w, wmax, p, q) ==
  IF a = NaN THEN NaN
  ELSE LET cap == MinOf(a, wmax) IN
       IF w = 1 /\ prev # NaN THEN MinOf(cap, Approach(prev, wmax, p, q)) ELSE cap

Att(x, b) == IF x = NaN \/ b = NaN THEN NaN ELSE x - b

Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE IF Len(e.out) # Len(e.x) THEN {"length"}
  ELSE FoldLeftDomain(
     LAMBDA bad, i :
       IF i = 1 THEN bad \cup Fail(e.out[1] # 0, "start")
       ELSE LET a == Att(e.x[i], e.b[i])
                exp == Next1(e.out[i-1], a, e.w[i], e.wmax, e.p, e.q)
            IN bad \cup Fail(~Near(exp, e.out[i], 2),
                             IF a = NaN THEN "missing attenuation"
                             ELSE IF e.w[i] = 1 THEN "wet step" ELSE "other step")
                   \cup Fail(IsNum(a) /\ (~IsNum(e.out[i]) \/ e.out[i] > a + 1 \/ e.out[i] > e.wmax + 1), "bound"),
     {}, e.x)
=============================================================================
