-------------------------------- MODULE C07 --------------------------------
(***************************************************************************)
(* Static wet antenna models as functions of the rain rate, and their       *)
(* inversion from the observed attenuation.  Unit 1e-6 dB.                  *)
(***************************************************************************)
EXTENDS Common, WaaTab

\* film of thickness gamma * R^delta: R = 2^m with delta = 1/n doubles the film m/n times
FilmIndex(i0, m, n) == i0 + m \div n
Leijnse(row, i0, m, n, zero) == IF zero THEN 0 ELSE Rows[row].waa[FilmIndex(i0, m, n)]

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* Pastorek with d = j ln 2 and R^zeta = r: A_max (1 - 2^(-j r)), A_max = amax * 2^20 units
Pastorek(amax, j, r) == IF j * r > 20 THEN amax * Pow2(20) ELSE amax * (Pow2(20) - Pow2(20 - j * r))

(***************************************************************************)
(* recorded executions                                                      *)
(*  formula: waa against ref (independent evaluation), zero[i]: R[i] = 0     *)
(*  invert:  out against waa for A_obs = A_rain + waa                        *)
(***************************************************************************)
Bad(e) ==
  CASE e.k = "formula" ->
       IF e.exc # "" THEN {"raised"}
       ELSE IF ~e.shape \/ Len(e.waa) # Len(e.ref) THEN {"shape"}
       ELSE Fail(\E i \in DOMAIN e.waa : e.zero[i] /\ e.waa[i] # 0, "not exactly 0 for rain rate 0")
         \cup Fail(\E i \in DOMAIN e.waa : ~e.zero[i] /\ ~Near(e.waa[i], e.ref[i], 2 + Abs(e.ref[i]) \div 1000000), "formula")
         \cup Fail(e.max > 0 /\ \E i \in DOMAIN e.waa : IsNum(e.waa[i]) /\ (e.waa[i] > e.max \/ e.waa[i] < 0), "bound")
    [] e.k = "invert" ->
       IF e.exc # "" THEN {"raised"}
       ELSE IF ~e.shape \/ Len(e.out) # Len(e.waa) THEN {"shape"}
       ELSE UNION {
         IF e.aobs[i] = NaN THEN Fail(e.out[i] # NaN, "missing value")
         ELSE IF ~IsNum(e.out[i]) THEN {"not a number"}
         ELSE Fail(e.out[i] > e.aobs[i] + 1, "more than the observed attenuation")
           \cup Fail(~Near(e.out[i], e.waa[i], 20 + (e.waa[i] \div 1000) * 15), "inversion")
           \cup Fail(e.aobs[i] = 0 /\ e.out[i] # 0, "not 0 without attenuation")
         : i \in DOMAIN e.waa}
    [] e.k = "reject" -> Fail(e.exc # "ValueError", "negative attenuation not rejected")
=============================================================================
