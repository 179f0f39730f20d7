------------------------------- MODULE MC_C21 -------------------------------
(* The computation as a machine: windows of all links in order, split into batches, model applied    *)
(* batch by batch, results put back by link and time.  Its result is the declarative one for every   *)
(* batch size, and does not depend on the other links.                                              *)
EXTENDS C21, Json
CONSTANTS Ls, Ts, Cs, Ws, Bs, Keep
VARIABLES par, samples, done, res, want
vars == <<par, samples, done, res, want>>
Val(l, t, c) == ((7 * l + 3 * t * t + 5 * c + l * t) % 11) + 1
Windows(d, W, r) ==   \* all windows, links in order: [l, t, x]
  FoldLeftDomain(LAMBDA a, l : a \o [s \in 1..MaxOf(0, Len(d[l]) - W + 1) |->
      [l |-> l, t |-> s + W - (r \div 2), x |-> SubSeq(d[l], s, s + W - 1)]], <<>>, d)
Init ==
  \E L \in Ls, T \in Ts, C \in Cs, W \in Ws, b \in Bs :
    /\ \E r \in 2..(2 * W), miss \in {<<0, 0>>} \cup ((1..L) \X (1..T)) :
       LET d == [l \in 1..L |-> [t \in 1..T |-> [c \in 1..C |-> IF <<l, t>> = miss /\ c = C THEN NaN ELSE Val(l, t, c)]]] IN
       /\ par = [data |-> d, W |-> W, r |-> r, b |-> b]
       /\ samples = Windows(d, W, r) /\ done = 0
       /\ res = [l \in 1..L |-> [t \in 1..T |-> NaN]]
       /\ want = PredAll(d, W, r)
Next == /\ done < Len(samples)
        /\ LET k == MinOf(par.b, Len(samples) - done) IN
           /\ res' = FoldLeft(LAMBDA a, i : [a EXCEPT ![samples[i].l][samples[i].t] = Out(samples[i].x)], res, [j \in 1..k |-> done + j])
           /\ done' = done + k
        /\ UNCHANGED <<par, samples, want>>
Spec == Init /\ [][Next]_vars
End == done = Len(samples)
Correct == End => res = want
\* nothing is written twice: different windows have different targets inside the series
Targets == done = 0 => /\ Cardinality({<<samples[i].l, samples[i].t>> : i \in DOMAIN samples}) = Len(samples)
                       /\ \A i \in DOMAIN samples : samples[i].t \in 1..Len(par.data[samples[i].l])
Monotone == [][\A l \in DOMAIN res : \A t \in DOMAIN res[l] : res[l][t] # NaN => res'[l][t] = res[l][t]]_vars
LinkLocal == End => \A l \in DOMAIN par.data : want[l] = PredAll(<<par.data[l]>>, par.W, par.r)[1]
Emit == done # 0 \/ (par.b # CHOOSE b \in Bs : \A x \in Bs : b <= x) \/ (par.W * 5 + par.r * 3 + Len(par.data[1]) * 7 + Cardinality({1})) % Keep # 0
        \/ PrintT("@@" \o ToJson([data |-> par.data, W |-> par.W, r |-> par.r, pred |-> want]))
=============================================================================
