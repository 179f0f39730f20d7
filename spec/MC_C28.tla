------------------------------- MODULE MC_C28 -------------------------------
(* All short streams of samples through the product of the kernels. *)
EXTENDS C28, Json
CONSTANTS MaxLen, N
VARIABLE s
Wmax == 960
Thr == 700
\* position coded signal, or low, or missing; flag dry, wet, missing
X(i) == {480 * (1 + ((i * i) % 5)), NaN}
Flags == {0, 1, NaN}
Init == \E x \in X(1), w \in Flags : s = Prod0(N, x, w)
Next == Len(s.xs) < MaxLen /\ \E x \in X(Len(s.xs) + 1), w \in Flags : s' = ProdStep(s, x, w, Wmax)
Spec == Init /\ [][Next]_s
\* the kernels keep pace, and what the machines produce is accepted by the judgement of the single kernels
Pace == Len(s.bco) = Len(s.xs) /\ Len(s.bl.out) = Len(s.xs) /\ Len(s.wa) = Len(s.xs)
Judged == /\ BC!Bad([exc |-> "", x |-> s.xs, w |-> s.ws, n |-> N, out |-> s.bco]) = {}
          /\ WA!Bad([exc |-> "", x |-> s.xs, b |-> [i \in DOMAIN s.xs |-> 0], w |-> s.ws, wmax |-> Wmax, p |-> 1, q |-> 2, out |-> s.wa]) = {}
Causal == [][SubSeq(s'.bco, 1, Len(s.bco)) = s.bco /\ SubSeq(s'.wa, 1, Len(s.wa)) = s.wa]_s
Emit == PrintT("@@" \o ToJson([x |-> s.xs, w |-> s.ws, n |-> N, wmax |-> Wmax, thr |-> Thr,
                               bc |-> s.bco, bl |-> s.bl.out, wa |-> s.wa, mask |-> MaskOf(s.xs, Thr)]))
=============================================================================
