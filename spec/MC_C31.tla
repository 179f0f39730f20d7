------------------------------- MODULE MC_C31 -------------------------------
(* The calendar runs day by day from New Year's Day to New Year's Eve, for all durations of the table. *)
EXTENDS C31, Json
CONSTANTS Years
VARIABLES y, m, d, n, dur
vars == <<y, m, d, n, dur>>
Init == y \in Years /\ m = 1 /\ d = 1 /\ n = 1 /\ dur \in DURATIONS
Next == /\ IF d < DaysIn(y, m) THEN d' = d + 1 /\ m' = m ELSE m < 12 /\ d' = 1 /\ m' = m + 1
        /\ n' = n + 1 /\ UNCHANGED <<y, dur>>
Spec == Init /\ [][Next]_vars
RangeRoot == Root(dur.rm, dur.ra, dur.rp, n)
SillRoot == Root(dur.sm, dur.sa, dur.sp, n)
\* counting days from New Year gives the day of the year
Counted == n = DayOfYear(y, m, d) /\ n <= 366 /\ (m = 12 /\ d = 31 => n = IF Leap(y) THEN 366 ELSE 365)
\* roots stay within mean +- amplitude, hence positive
Bounded == /\ Abs(RangeRoot - dur.rm) <= dur.ra + 1 /\ Abs(SillRoot - dur.sm) <= dur.sa + 1
           /\ RangeRoot > 0 /\ SillRoot > 0
\* the year closes: day 366 is day 1 again
Periodic == Season(n * 10000 - dur.rp) = Season((n + 365) * 10000 - dur.rp)
\* half a year apart, opposite; addition theorem at a quarter (sin^2 + cos^2 = 1)
Half == Abs(Season(n * 10000) + Season(n * 10000 + 1825000)) <= 4
Circle == LET a == Season(n * 10000) \div 100  b == Season(n * 10000 - 912500) \div 100 IN Abs(a * a + b * b - 100000000) <= 60000
\* the largest sill comes at the phase of the sill (early summer), the largest range in winter
Smooth == [][Abs(RangeRoot' - RangeRoot) <= (dur.ra \div 50) + 5 /\ Abs(SillRoot' - SillRoot) <= (dur.sa \div 50) + 5]_vars
Peak == /\ Abs(n * 10000 - dur.sp) <= 5000 => dur.sm + dur.sa - SillRoot <= 100
        /\ Abs(n * 10000 - dur.rp) <= 5000 => dur.rm + dur.ra - RangeRoot <= 300
Emit == PrintT("@@" \o ToJson([y |-> y, m |-> m, d |-> d, h100 |-> dur.h100, rr |-> RangeRoot, sr |-> SillRoot]))
=============================================================================
