------------------------------- MODULE MC_C16 -------------------------------
EXTENDS C16, Json
CONSTANTS MaxN, Keep
VARIABLES th, ref, pred, a
vars == <<th, ref, pred, a>>
V == {0, 1, 2, 7, NaN}
Init == th \in {0, 1} /\ ref = <<>> /\ pred = <<>> /\ a = Zero
Next == /\ Len(ref) < MaxN
        /\ \E x \in V, y \in V : ref' = Append(ref, x) /\ pred' = Append(pred, y) /\ a' = Add(a, x, y, th)
        /\ UNCHANGED th
Spec == Init /\ [][Next]_vars
(* ---- the property ---- *)
Counts == a.n + a.nanp = a.all /\ a.wet + a.dry = a.n /\ a.fw <= a.dry /\ a.mw <= a.wet
OrderFree == Agg(Reverse(ref), Reverse(pred), th) = a
PearsonBounded == Cxy(a) * Cxy(a) <= Vx(a) * Vy(a)
VarNonNeg == Vx(a) >= 0 /\ Vy(a) >= 0 /\ Vd(a) >= 0
ErrorOrder == a.ad * a.ad <= a.n * a.dd       \* MAE <= RMSE
Swap == LET b == Agg(pred, ref, th) IN b.sx = a.sy /\ b.ad = a.ad /\ b.dd = a.dd /\ b.fw = a.mw /\ b.fwr = a.mwr /\ b.nanr = a.nanq
WetEventsRain == a.fwr >= a.fw * (th + 1) /\ a.mwr >= a.mw * (th + 1)
Hash == FoldLeftDomain(LAMBDA s, i : (s * 7 + (ref[i] % 11) + 3 * (pred[i] % 11)) % 10007, th, ref)
Emit == Len(ref) = 0 \/ (Len(ref) > 2 /\ Hash % Keep # 0) \/
   PrintT("@@" \o ToJson([ref |-> ref, pred |-> pred, th |-> th, a |-> a, vx |-> Vx(a), vy |-> Vy(a), cxy |-> Cxy(a), vd |-> Vd(a)]))
=============================================================================
