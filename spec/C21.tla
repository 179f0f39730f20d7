-------------------------------- MODULE C21 --------------------------------
(***************************************************************************)
(* Window inference over links.  data[l][t] is the sequence of channel      *)
(* values of link l at step t (integers, or missing).  The model under test *)
(* is the position coded linear form Out, which differs for any two         *)
(* different windows the data can contain: it stands for an arbitrary model *)
(* that maps a window (channel, step) to a number.                          *)
(***************************************************************************)
EXTENDS Common
\* weight of channel c, position j of W: no two positions alike
Wgt(c, j, W) == 1 + (j - 1) + 3 * W * (c - 1)
Out(win) ==                                   \* win: sequence of samples (sequence of channels)
  LET W == Len(win) IN
  FoldLeftDomain(LAMBDA a, j : FoldLeftDomain(LAMBDA b, c :
      IF b = NaN \/ win[j][c] = NaN THEN NaN ELSE b + Wgt(c, j, W) * win[j][c], a, win[j]), 0, win)
\* the window of step t (1-based) ends r/2 - 1 steps after t
Lst(t, r) == t + (r \div 2) - 1
Complete(T, W, r, t) == Lst(t, r) <= T /\ Lst(t, r) - W + 1 >= 1
Pred(series, W, r, t) ==
  IF ~Complete(Len(series), W, r, t) THEN NaN ELSE Out(SubSeq(series, Lst(t, r) - W + 1, Lst(t, r)))
PredAll(data, W, r) == [l \in DOMAIN data |-> [t \in DOMAIN data[l] |-> Pred(data[l], W, r, t)]]

Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE Fail(~e.kept, "input data or coordinates changed")
       \cup Fail(e.pred # PredAll(e.data, e.W, e.r), "prediction not that of the window of its link and time")
=============================================================================
