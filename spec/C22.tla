-------------------------------- MODULE C22 --------------------------------
(***************************************************************************)
(* Windows of seq_len steps per link; data[l][t][v] for variable v.         *)
(* Evaluated: the windows of the selected links that are complete and       *)
(* finite.  The model gets them scaled per variable over all of them.       *)
(***************************************************************************)
EXTENDS Common
WinOf(series, q, t) == SubSeq(series, t - q + 1, t)
Valid(series, q, t) == t >= q /\ \A j \in (t - q + 1)..t : \A v \in DOMAIN series[j] : IsNum(series[j][v])
Cells(data, sel, q) == {<<l, t>> \in {sel[i] : i \in DOMAIN sel} \X (DOMAIN data[1]) : Valid(data[l], q, t)}
\* number of values, sum and sum of squares of variable v over all evaluated windows (a step counts once per window)
Add(a, series, q, t, v) == FoldLeft(LAMBDA b, x : [n |-> b.n + 1, s |-> b.s + x[v], q |-> b.q + x[v] * x[v]], a, WinOf(series, q, t))
Zero == [n |-> 0, s |-> 0, q |-> 0]
Stats(data, cells, q, v) == FoldSet(LAMBDA c, a : Add(a, data[c[1]], q, c[2], v), Zero, cells)

\* z: values the model got for a variable, x: the values of the data, sc: scale of z
LowOf(x) == FoldLeft(LAMBDA a, b : IF b < a THEN b ELSE a, x[1], x)
HighOf(x) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, x[1], x)
\* (the existential quantifiers over single values make TLC evaluate each of them once)
Scaled(x0, z0, sc) ==
  \E x \in {x0} : \E z \in {z0} : \E n \in {Len(x0)} : \E mi \in {LowOf(x0)} : \E ma \in {HighOf(x0)} :
  IF \E i \in 1..n : ~IsNum(z[i]) THEN FALSE
  ELSE IF ma = mi THEN \A i \in 1..n : Abs(z[i]) <= 2
  ELSE \E lo \in {z[CHOOSE i \in 1..n : x[i] = mi]} : \E hi \in {z[CHOOSE i \in 1..n : x[i] = ma]} :
          /\ hi > lo
          /\ \A i \in 1..n : Abs((z[i] - lo) * (ma - mi) - (x[i] - mi) * (hi - lo)) <= 4 * (ma - mi)
          /\ Abs(FoldLeft(LAMBDA a, b : a + b, 0, z)) <= n
          /\ Abs(FoldLeft(LAMBDA a, b : a + b * b, 0, z) - n * sc * sc) <= 2 * n * sc
\* e.wins[l][t]: the window the model got for the value stored at (l, t), <<>> where the result is missing
Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE LET C == TLCEval(Cells(e.data, e.sel, e.q))
           got == TLCEval({<<l, t>> \in (DOMAIN e.wins) \X (DOMAIN e.wins[1]) : e.wins[l][t] # <<>>})
           ord == TLCEval(SetToSeq(C))
           V == Len(e.data[1][1])
       IN Fail(~e.kept, "input or coordinates changed")
          \cup Fail(got # C, "stored at other steps or links than the complete windows")
          \cup (IF got # C \/ C = {} THEN {} ELSE
                IF \E c \in C : Len(e.wins[c[1]][c[2]]) # e.q \/ \E j \in DOMAIN e.wins[c[1]][c[2]] : Len(e.wins[c[1]][c[2]][j]) # V THEN {"window shape"}
                ELSE UNION {Fail(~Scaled([k \in 1..(Len(ord) * e.q) |-> LET c == ord[1 + ((k - 1) \div e.q)] IN e.data[c[1]][c[2] - e.q + 1 + ((k - 1) % e.q)][v]],
                                         [k \in 1..(Len(ord) * e.q) |-> LET c == ord[1 + ((k - 1) \div e.q)] IN e.wins[c[1]][c[2]][1 + ((k - 1) % e.q)][v]], e.sc),
                                 "window or scaling of a variable") : v \in 1..V})
=============================================================================
