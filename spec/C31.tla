-------------------------------- MODULE C31 --------------------------------
(***************************************************************************)
(* Climatological variogram: an annual cycle.  The fourth roots of range    *)
(* (in m) and sill are mean + amplitude * cos(2 pi (day - phase) / 365),    *)
(* the day being the day of the year of the calendar date; mean, amplitude  *)
(* and phase depend on the duration alone.                                  *)
(* Units: roots, means, amplitudes 1e-6; days and phases 1e-4.              *)
(***************************************************************************)
EXTENDS Common, CosTab

\* --- calendar -------------------------------------------------------------
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
RECURSIVE DayOfYear(_, _, _)
DayOfYear(y, m, d) == IF m = 1 THEN d ELSE DaysIn(y, m - 1) + DayOfYear(y, m - 1, d)

\* --- cosine of an angle in 1e-4 degrees, in units of 1e-6 -----------------
Quad(a) == LET k == a \div 1000  r == a % 1000 IN
           IF k >= 900 THEN 0 ELSE COS90[k + 1] + ((COS90[k + 2] - COS90[k + 1]) * r) \div 1000
CosDeg(a) == LET b == a % 3600000  c == IF b > 1800000 THEN 3600000 - b ELSE b IN
             IF c <= 900000 THEN Quad(c) ELSE -Quad(1800000 - c)
\* t: 1e-4 days, any sign; one year = 365 days
Season(t) == CosDeg(((t % 3650000) * 72) \div 73)

Scaled(amp, c) == (amp \div 1000) * (c \div 1000) + ((amp % 1000) * (c \div 1000)) \div 1000 + ((amp \div 1000) * (c % 1000)) \div 1000
Root(mean, amp, phase, day) == mean + Scaled(amp, Season(day * 10000 - phase))

\* --- recorded execution -----------------------------------------------------
\* e.y, e.m, e.d: date; e.c: means, amplitudes and phases of the duration (evaluated from the powers of the duration);
\* e.rr, e.sr: fourth roots of the result for range (in m) and sill; e.sill, e.nug: sill and nugget in the same scale
Tol(x) == 40 + Abs(x) \div 200000
Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE LET day == DayOfYear(e.y, e.m, e.d)
           r == Root(e.c.rm, e.c.ra, e.c.rp, day)
           s == Root(e.c.sm, e.c.sa, e.c.sp, day) IN
    Fail(~Near(e.rr, Abs(r), Tol(r)), "range") \cup Fail(~Near(e.sr, Abs(s), Tol(s)), "sill")
    \cup Fail(~(IsNum(e.sill) /\ IsNum(e.nug)) \/ Abs(e.sill - 10 * e.nug) > 10, "nugget is not a tenth of the sill")
    \cup Fail(~e.keys, "keys of the result")
=============================================================================
