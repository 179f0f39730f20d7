-------------------------------- MODULE C25 --------------------------------
(***************************************************************************)
(* Attenuation from min/max data.  Values in units of 1/Scale dB; e.bias is *)
(* (gT + gR)/2 in the same unit.                                            *)
(***************************************************************************)
EXTENDS Common

\* round half to even of num/den (den > 0)
RoundHalfEven(num, den) ==
  LET f == num \div den  r == num % den IN
  IF 2 * r < den THEN f ELSE IF 2 * r > den THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1

Diff(a, b, c) == IF a = NaN \/ b = NaN THEN NaN ELSE a - b + c
Present(s) == SelectSeq(s, LAMBDA v : v # NaN)
Fill(s, scale) ==
  LET p == Present(s)
      v == IF p = <<>> THEN NaN ELSE RoundHalfEven(SumSeq(p), Len(p) * scale) * scale
  IN [i \in 1..Len(s) |-> IF s[i] = NaN THEN v ELSE s[i]]

MinSeq(s, a, b) == IF \E k \in a..b : s[k] = NaN THEN NaN ELSE Min({s[k] : k \in a..b})

Expected(txmin, txmax, rxmin, rxmax, bias, window, scale) ==
  LET n == Len(txmin)
      amax == Fill([i \in 1..n |-> Diff(txmax[i], rxmin[i], -bias)], scale)
      amin == Fill([i \in 1..n |-> Diff(txmin[i], rxmax[i], bias)], scale)
  IN [i \in 1..n |->
       IF i <= window THEN NaN
       ELSE LET m == MinSeq(amin, i - window, i) IN
            IF amax[i] = NaN \/ m = NaN THEN NaN ELSE MaxOf(amax[i] - m, 0)]

Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE IF Len(e.out) # Len(e.txmin) THEN {"length"}
  ELSE LET x == Expected(e.txmin, e.txmax, e.rxmin, e.rxmax, e.bias, e.window, e.scale)
           n == Len(e.out)
       IN Fail(\E i \in 1..n : i <= e.window /\ e.out[i] # NaN, "first window steps not missing")
          \cup Fail(\E i \in 1..n : i > e.window /\ e.out[i] # x[i], "attenuation")
          \cup Fail(\E i \in 1..n : IsNum(e.out[i]) /\ e.out[i] < 0, "negative")
=============================================================================
