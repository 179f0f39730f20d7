------------------------------- MODULE MC_C29 -------------------------------
(* Two series in lock step through the chain: all streams of signals and flags. *)
EXTENDS C29, Json
CONSTANTS MaxLen, Full, Sel, N, Waa
VARIABLES a, b
vars == <<a, b>>
ParA == [n |-> N, waa |-> Waa, wmax |-> 960, p |-> 1, q |-> 2, g |-> 480, amin |-> 48]
ParB == [n |-> N, waa |-> Waa, wmax |-> 960, p |-> 1, q |-> 2, g |-> 1920, amin |-> 192]
X == {0, 480, 1920, NaN}
Flags == {0, 1, NaN}
Init == a = Chain0(ParA) /\ b = Chain0(ParB)
Code(v) == IF v = NaN THEN 7 ELSE v \div 480
HashOf == FoldLeft(LAMBDA h, v : (h * 13 + Code(v)) % 5003, 3, a.xs \o a.ws \o b.xs \o b.ws)
\* the second series is an arbitrary one of a few for each step of the first
Next == /\ Len(a.xs) < MaxLen
        /\ \E x \in X, w \in Flags : \E k \in 0..11 :
             LET y == 480 * ((k * 3 + Len(a.xs)) % 5)  IN
             /\ IF Len(a.xs) < Full /\ k < 3 THEN TRUE ELSE (HashOf + k + Code(x) + 2 * Code(w)) % Sel = 0
             /\ a' = ChainStep(a, ParA, x, w)
             /\ b' = ChainStep(b, ParB, IF k = 11 THEN NaN ELSE y, IF k % 5 = 4 THEN NaN ELSE k % 2)
Spec == Init /\ [][Next]_vars
GapsStay == Gaps(a) /\ Gaps(b)
NoRainWithoutExcess == Dry(a, 0) /\ Dry(b, 0)
NeverNegative == NonNeg(a) /\ NonNeg(b)
MoreExcessMoreRain == Monotone(a, 0) /\ Monotone(b, 0)
\* after the first n steps a dry step has its own signal as baseline
DrySteps == \A i \in DOMAIN a.R : (a.ws[i] = 0 /\ IsNum(a.R[i])) => a.R[i] = 0
\* the past of the chain is never revised
Causal == [][SubSeq(a'.R, 1, Len(a.R)) = a.R /\ SubSeq(b'.R, 1, Len(b.R)) = b.R]_vars
Out(s) == [x |-> s.xs, w |-> s.ws, b |-> s.b, waa |-> s.waa, R |-> s.R]
Emit == IF Len(a.xs) > 1 /\ (Len(a.xs) <= 2 \/ HashOf % Sel = 1)
        THEN PrintT("@@" \o ToJson([a |-> Out(a), b |-> Out(b), n |-> N, schleiss |-> Waa, pa |-> ParA, pb |-> ParB])) ELSE TRUE
=============================================================================
