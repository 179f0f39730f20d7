------------------------------- MODULE MC_C23 -------------------------------
(* The design matrix as built: rows of missing values, then all windows one after the other, then rows of *)
(* missing values (one row per step of the machine).  It has one row per time step and row t is the window *)
(* of step t.  Small constants are checked over all missing patterns, the real ones on series for replay.  *)
EXTENDS C23, Json
CONSTANTS K, M, P, Ns, Cases, Real
VARIABLES par, rows
vars == <<par, rows>>
Val(t, c) == 3 * ((7 * t * t + 11 * t * c + 5 * c) % 13) + ((t * t * t + c) % 4)
Series(n, c, miss) == [t \in 1..n |-> IF t \in miss THEN NaN ELSE Val(t, c)]
Misses(n) == IF Real THEN {{}, {1}, {n \div 2}, {n}, {2, n - 1}, {2, 3}} ELSE SUBSET (1..n)
Init ==
  \E n \in Ns, sel \in Cases : \E m1 \in Misses(n), m2 \in IF Real THEN {{}, {3}, {n - 2}} ELSE {{}, {1}, {2}} :
    LET x1 == Series(n, 1, m1)  x2 == Series(n, 2, m2) IN
    /\ (Real => (~Online(sel) => n >= 120))
    /\ par = [sel |-> sel, x1 |-> x1, x2 |-> x2,
              d1 |-> [t \in 1..n |-> Detrend(sel, x1, t, M, P)], d2 |-> [t \in 1..n |-> Detrend(sel, x2, t, M, P)]]
    /\ rows = <<>>
\* block structure: lead missing rows, windows, tail missing rows (w: index among the windows)
Lead == IF Online(par.sel) THEN K ELSE K \div 2
\* the online series of differences starts at the second step
NWin == Len(par.x1) - K + 1 - (IF Online(par.sel) THEN 1 ELSE 0)
Tail0 == IF Online(par.sel) THEN 0 ELSE K \div 2 - 1
Next == /\ Len(rows) < Lead + NWin + Tail0
        /\ LET r == Len(rows) + 1  a == r - Lead + (IF Online(par.sel) THEN 1 ELSE 0) IN
           rows' = Append(rows, IF r <= Lead \/ r > Lead + NWin THEN 0
                                ELSE IF \E j \in a..(a + K - 1) : par.d1[j] = NaN \/ par.d2[j] = NaN THEN 0 ELSE a)
        /\ UNCHANGED par
Spec == Init /\ [][Next]_vars
End == Len(rows) = Lead + NWin + Tail0
OneRowPerStep == Lead + NWin + Tail0 = Len(par.x1)
RightWindow == End => \A t \in DOMAIN rows : rows[t] = Row(par.sel, par.d1, par.d2, t, K)
\* the online models look at the past only
Causal == End /\ Online(par.sel) => \A t \in DOMAIN rows : rows[t] # 0 => rows[t] + K - 1 = t
Emit == ~Real \/ ~End \/ PrintT("@@" \o ToJson([sel |-> par.sel, x1 |-> par.x1, x2 |-> par.x2, d1 |-> par.d1, d2 |-> par.d2, rows |-> rows]))
=============================================================================
