-------------------------------- MODULE C04 --------------------------------
(***************************************************************************)
(* Rain rate from attenuation.  The power law itself is an operation on     *)
(* reals; the machine below works with coefficients for which it is exact   *)
(* (exponents 1, 2 and 1/2), recorded executions of arbitrary coefficients  *)
(* carry the forward law applied to the returned rain rate (fwd) and to     *)
(* R_min (amin), measured by the driver.                                    *)
(***************************************************************************)
EXTENDS Common

(* ---- exact instances: A = g * R^b with g = a * L ---- *)
\* b coded: 1 -> exponent 1, 2 -> exponent 2, 3 -> exponent 1/2.  R of the form k^2 for 3.
Forward(g, b, k) == CASE b = 1 -> g * k [] b = 2 -> g * k * k [] b = 3 -> g * k
RainOf(b, k) == IF b = 3 THEN k * k ELSE k

\* rain rate for a value whose inverse is r (r = NaN: A missing, r < 0: A negative)
Rain(r, rmin) == IF r = NaN THEN NaN ELSE IF r = PInf THEN PInf ELSE IF r < 0 \/ r < rmin THEN 0 ELSE r

(* ---- argument combinations (TRUE = given) ---- *)
ArgsOK(f, pol, a, b) == (f /\ pol /\ ~a /\ ~b) \/ (a /\ b /\ ~f /\ ~pol)

(***************************************************************************)
(* recorded executions                                                      *)
(***************************************************************************)
One(A, r, fwd, amin, rmin) ==
  IF A = NaN THEN Fail(r # NaN, "missing attenuation")
  ELSE IF A = PInf THEN Fail(r # PInf, "infinite attenuation")
  ELSE IF A = NInf THEN Fail(r # 0, "negative attenuation")
  ELSE IF ~IsNum(r) THEN {"not a number"}
  ELSE IF A < 0 THEN Fail(r # 0, "negative attenuation")
  ELSE IF r = 0 THEN Fail(A > amin + 1, "zero although above R_min")
  ELSE Fail(r < 0, "negative rain rate")
    \cup Fail(r < rmin - 1 \/ A < amin - 1, "rain rate below R_min")
    \cup Fail(~Near(A, fwd, 1 + A \div 100000), "power law")

Bad(e) ==
  CASE e.k = "law" ->
       IF e.exc # "" THEN {"raised"}
       ELSE IF Len(e.R) # Len(e.A) \/ ~e.shape THEN {"shape"}
       ELSE UNION {One(e.A[i], e.R[i], e.fwd[i], e.amin[i], e.rmin) : i \in DOMAIN e.A}
    [] e.k = "args" ->
       LET ok == ArgsOK(e.f, e.pol, e.a, e.b) IN
       Fail(ok /\ e.exc # "", "accepted combination raised")
       \cup Fail(~ok /\ e.exc # "ValueError", "wrong combination not rejected")
    [] e.k = "equal" ->
       IF e.exc # "" THEN {"raised"}
       ELSE Fail(Len(e.r1) # Len(e.r2), "shape")
         \cup (IF Len(e.r1) # Len(e.r2) THEN {} ELSE
               Fail(\E i \in DOMAIN e.r1 : ~Near(e.r1[i], e.r2[i], 1), "differs between equivalent calls"))
=============================================================================
