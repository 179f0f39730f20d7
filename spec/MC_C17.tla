------------------------------- MODULE MC_C17 -------------------------------
EXTENDS C17, Json
CONSTANTS MaxT, Keep
VARIABLES label, t, ts, ni, st
vars == <<label, t, ts, ni, st>>
Init == label \in {"left", "right"} /\ t = 0 /\ ts = <<>> /\ ni = {} /\ st = <<>>
\* time passes; at each instant no, one or two samples and possibly a time stamp
Next == /\ t < MaxT
        /\ \E k \in 0..2, s \in BOOLEAN :
             /\ IF k < 2 THEN TRUE ELSE IF ts = <<>> THEN TRUE ELSE ts[Len(ts)] # t - 1
             /\ ts' = ts \o [j \in 1..k |-> t]
             /\ ni' = ni \cup (IF s THEN {t} ELSE {})
             /\ st' = IF ts' = <<>> \/ ni' = {} THEN <<>> ELSE StampSeq(ts', ni', label)
        /\ t' = t + 1 /\ UNCHANGED label
Spec == Init /\ [][Next]_vars
Full == ts # <<>> /\ ni # {}
St(i) == st[i]
(* ---- the property ---- *)
AtStamp == Full => LET a == Start(ts, ni)  b == Stop(ts, ni) IN \A i \in DOMAIN ts : ts[i] \in ni /\ ts[i] >= a /\ ts[i] <= b => St(i) = ts[i]
Once == Full => \A s1 \in ni, s2 \in ni : s1 # s2 => Group(s1, st) \cap Group(s2, st) = {}
Monotone == Full => \A i \in DOMAIN ts, j \in DOMAIN ts : ts[i] <= ts[j] /\ St(i) # NaN /\ St(j) # NaN => St(i) <= St(j)
NoStampBetween == Full => \A i \in DOMAIN ts : St(i) # NaN =>
    IF label = "right" THEN ~\E s \in ni : ts[i] <= s /\ s < St(i) ELSE ~\E s \in ni : St(i) < s /\ s <= ts[i]
Covered == Full /\ (Min(ni) <= ts[1] \/ label = "right") /\ Max(ni) = Max(Range(ts)) /\ Min(ni) <= Min(Range(ts)) /\ ((label = "left") => Min(ni) = Min(Range(ts)))
    => \A i \in DOMAIN ts : St(i) # NaN
Hash == FoldLeft(LAMBDA a, x : (a * 3 + x) % 10007, FoldSet(LAMBDA x, a : a + (x + 1) * (x + 2), 0, ni), ts)
Emit == ~Full \/ (t = MaxT /\ Hash % Keep # 0) \/ PrintT("@@" \o ToJson([label |-> label, ts |-> ts, ni |-> SetToSortSeq(ni, <),
   idx |-> SetToSortSeq(Stamps(st), <), groups |-> LET q == SetToSortSeq(Stamps(st), <) IN [k \in DOMAIN q |-> SetToSeq(Group(q[k], st))]]))
=============================================================================
