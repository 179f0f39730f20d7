------------------------------- MODULE MC_C15 -------------------------------
EXTENDS C15, Json
CONSTANTS MaxN, Keep
VARIABLES ref, pred, c
vars == <<ref, pred, c>>
F == {0, 1, NaN}
Init == ref = <<>> /\ pred = <<>> /\ c = Zero
Next == Len(ref) < MaxN /\ \E x \in F, y \in F : ref' = Append(ref, x) /\ pred' = Append(pred, y) /\ c' = Count(c, x, y)
Spec == Init /\ [][Next]_vars
Inv(s) == [i \in DOMAIN s |-> IF s[i] = NaN THEN NaN ELSE 1 - s[i]]
(* ---- the property ---- *)
Partition == c.tp + c.tn + c.fp + c.fn + c.nanp = c.all /\ NWet(c) + NDry(c) = c.all - c.nanp
MissingCounts == c.nanp <= c.nanr + c.nanq /\ c.nanr <= c.nanp /\ c.nanq <= c.nanp
OrderFree == Table(Reverse(ref), Reverse(pred)) = c
WetDrySwap == LET d == Table(Inv(ref), Inv(pred)) IN
   d.tp = c.tn /\ d.tn = c.tp /\ d.fp = c.fn /\ d.fn = c.fp /\ d.nanp = c.nanp /\ MccNum(d) = MccNum(c) /\ MccProd(d) = MccProd(c)
MccBounded == MccNum(c) * MccNum(c) <= MccProd(c)
PerfectIsOne == c.fp = 0 /\ c.fn = 0 /\ c.tp > 0 /\ c.tn > 0 => MccNum(c) * MccNum(c) = MccProd(c) /\ MccNum(c) > 0
Hash == FoldLeftDomain(LAMBDA a, i : (a * 7 + (ref[i] % 5) + 3 * (pred[i] % 5)) % 10007, 1, ref)
Emit == Len(ref) = 0 \/ (Len(ref) > 4 /\ Hash % Keep # 0) \/ PrintT("@@" \o ToJson([ref |-> ref, pred |-> pred, c |-> c, num |-> MccNum(c), prod |-> MccProd(c)]))
=============================================================================
