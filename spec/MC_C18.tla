------------------------------- MODULE MC_C18 -------------------------------
EXTENDS C18, Json
CONSTANTS Rows, Cols, MaxSteps
VARIABLES par, pos, cnt, n
vars == <<par, pos, cnt, n>>
Px == (0..Rows - 1) \X (0..Cols - 1)
Dirs == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<1, 1>>, <<1, -1>>, <<-1, 1>>, <<-1, -1>>}
Inside(p) == p[1] >= 0 /\ p[1] <= 2 * Cols /\ p[2] >= 0 /\ p[2] <= 2 * Rows
\* axis parallel links run through the middle of the pixels, not along their borders
Starts == {s \in (1..2 * Cols - 1) \X (1..2 * Rows - 1) : TRUE}
OKStart(s, d) == (d[1] = 0 => s[1] % 2 = 1) /\ (d[2] = 0 => s[2] % 2 = 1)
GT == <<0, 15, 30, 45>>
TimePars == {[t1 |-> -5, t2 |-> 50], [t1 |-> 0, t2 |-> 45], [t1 |-> 14, t2 |-> 31], [t1 |-> -5, t2 |-> 30]}
Samples == <<-3, 0, 7, 15, 16, 30, 44, 45, 50>>
Field(t, i, j) == (i * Cols + j) * (i + 2 * j + 1) + t   \* some field without symmetry
Init == \E s \in Starts, d \in Dirs, tp \in TimePars :
   /\ (s[1] + 3 * s[2] + d[1] + tp.t2) % 4 # 0 \/ tp.t1 = 0
   /\ OKStart(s, d) /\ par = [s |-> s, d |-> d, t |-> tp] /\ pos = s /\ cnt = [p \in Px |-> 0] /\ n = 0
Next == /\ n < MaxSteps
        /\ pos' = <<pos[1] + par.d[1], pos[2] + par.d[2]>> /\ Inside(pos')
        /\ cnt' = [cnt EXCEPT ![PixelOf(pos[1], pos[2], par.d[1], par.d[2])] = @ + 1]
        /\ n' = n + 1 /\ UNCHANGED par
Spec == Init /\ [][Next]_vars
Used == TimesUsed(GT, par.t.t1, par.t.t2)
Num(t) == FoldSet(LAMBDA p, a : a + cnt[p] * Field(t, p[1], p[2]), 0, Px)
(* ---- the property ---- *)
ConstantReproduced == FoldSet(LAMBDA p, a : a + cnt[p], 0, Px) = n
Connected == n > 0 => \A p \in Px : cnt[p] > 0 =>
   \/ Cardinality({q \in Px : cnt[q] > 0}) = 1
   \/ \E q \in Px : q # p /\ cnt[q] > 0 /\ Abs(p[1] - q[1]) <= 1 /\ Abs(p[2] - q[2]) <= 1
StrictTimes == \A k \in DOMAIN Used : Used[k] > par.t.t1 /\ Used[k] < par.t.t2
SomeTime == Used # <<>>
Reversible == n > 0 => \* walking back visits the same pixels
   PixelOf(pos[1], pos[2], -par.d[1], -par.d[2]) \in {p \in Px : cnt[p] > 0}
Gr(label) == LET st == SetToSortSeq({LabelOf(Samples[i], Used, label) : i \in DOMAIN Samples} \ {NaN}, <) IN
   [k \in DOMAIN st |-> <<st[k], SetToSortSeq(GroupOf(st[k], Samples, Used, label), <)>>]
Emit == n = 0 \/ PrintT("@@" \o ToJson([rows |-> Rows, cols |-> Cols, a |-> par.s, b |-> pos, t1 |-> par.t.t1, t2 |-> par.t.t2, gt |-> GT, n |-> n, times |-> Used,
   num |-> [k \in DOMAIN Used |-> Num(Used[k])], field |-> [i \in 1..Rows |-> [j \in 1..Cols |-> Field(0, i - 1, j - 1)]],
   cnt |-> [i \in 1..Rows |-> [j \in 1..Cols |-> cnt[<<i - 1, j - 1>>]]], samples |-> Samples, right |-> Gr("right"), left |-> Gr("left")]))
=============================================================================
