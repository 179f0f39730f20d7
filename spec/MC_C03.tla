------------------------------- MODULE MC_C03 -------------------------------
EXTENDS C03, Json
CONSTANTS MaxLen
VARIABLES xs
Thr == -650
Alpha == {NaN, -700, -650, -600}
Init == xs \in {<<a>> : a \in Alpha}
Next == Len(xs) < MaxLen /\ \E a \in Alpha : xs' = Append(xs, a)
Spec == Init /\ [][Next]_xs

L == Len(xs)
gs == [i \in 1..L |-> IsStart(xs, Thr, i)]
ge == [i \in 1..L |-> IsEnd(xs, Thr, i)]
Fold(x, s, e) == FoldLeftDomain(
   LAMBDA a, i : LET in == InGap(a.in, x[i], s[i], e[i]) IN
                 [in |-> in, m |-> Append(a.m, MaskOf(in, x[i], s[i], e[i]))],
   [in |-> FALSE, m |-> <<>>], x).m
mf == Fold(xs, gs, ge)
mr == RevSeq(Fold(RevSeq(xs), RevSeq(ge), RevSeq(gs)))
both == [i \in 1..L |-> mf[i] \/ mr[i]]

(* ---- the property ---- *)
Run(i) == {j \in 1..L : xs[j] = NaN /\ \A k \in MinOf(i, j)..MaxOf(i, j) : xs[k] = NaN}
OnlyMissing == \A i \in 1..L : both[i] => xs[i] = NaN
WholeRuns == \A i, j \in 1..L : xs[i] = NaN /\ j \in Run(i) => mf[i] = mf[j] /\ mr[i] = mr[j]
RunFirst(i) == CHOOSE j \in Run(i) : \A k \in Run(i) : j <= k
RunLast(i) == CHOOSE j \in Run(i) : \A k \in Run(i) : j >= k
Island(j) == gs[j] /\ ge[j]
\* every gap with a marker is found by the two passes, the known finding excepted
Found == \A i \in 1..L : xs[i] = NaN =>
   LET a == RunFirst(i) - 1  b == RunLast(i) + 1
       s == a >= 1 /\ gs[MaxOf(a, 1)]  t == b <= L /\ ge[MinOf(b, L)]
   IN /\ (s /\ ~Island(a)) \/ (t /\ ~Island(b)) => both[i]
      /\ both[i] => s \/ t
NoGapNoMask == (\A i \in 1..L : xs[i] # NaN) => \A i \in 1..L : ~both[i] /\ ~gs[i] /\ ~ge[i]
Conf == Bad([exc |-> "", x |-> xs, thr |-> Thr, gs |-> gs, ge |-> ge, mf |-> mf, mr |-> mr])
          \subseteq {"blackout-island"}
Emit == PrintT("@@" \o ToJson([x |-> xs, thr |-> Thr, gs |-> gs, ge |-> ge, mf |-> mf, mr |-> mr]))
=============================================================================
