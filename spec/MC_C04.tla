------------------------------- MODULE MC_C04 -------------------------------
(* Arrays grown value by value; one behaviour per array and coefficient set; plus all *)
(* argument combinations (kind = "args").                                              *)
EXTENDS C04, Json
CONSTANTS MaxLen
VARIABLES kind, cfg, A, out
vars == <<kind, cfg, A, out>>
\* units: 1/16 of a dB and of a mm/h.  g = a*L
Ks == {-1, 0, 1, 2, 3, 8, 100}          \* inverse value (-1 negative A)
Cfgs == {[b |-> b, g |-> g, rmin |-> m] : b \in {1, 2, 3}, g \in {1, 4}, m \in {0, 2, 4}}
Init == \/ kind = "law" /\ cfg \in Cfgs /\ A = <<>> /\ out = <<>>
        \/ kind = "args" /\ cfg \in [f : BOOLEAN, pol : BOOLEAN, a : BOOLEAN, b : BOOLEAN] /\ A = <<>> /\ out = <<>>
Add(a, r) == A' = Append(A, a) /\ out' = Append(out, Rain(r, cfg.rmin)) /\ UNCHANGED <<kind, cfg>>
Next == /\ kind = "law" /\ Len(A) < MaxLen
        /\ \/ Add(NaN, NaN)
           \/ Add(PInf, PInf)
           \/ \E k \in Ks : IF k < 0 THEN Add(-cfg.g * 3, -1)
                            ELSE Add(Forward(cfg.g, cfg.b, k), RainOf(cfg.b, k))
Spec == Init /\ [][Next]_vars
(* ---- the property ---- *)
law == kind = "law"
Missing == law => \A i \in DOMAIN A : (A[i] = NaN) <=> (out[i] = NaN)
NonNegative == law => \A i \in DOMAIN A : IsNum(out[i]) => out[i] >= 0
Threshold == law => \A i \in DOMAIN A : IsNum(out[i]) => out[i] = 0 \/ out[i] >= cfg.rmin
Negative == law => \A i \in DOMAIN A : IsNum(A[i]) /\ A[i] < 0 => out[i] = 0
Monotone == law => \A i, j \in DOMAIN A : IsNum(A[i]) /\ IsNum(A[j]) /\ A[i] <= A[j] => out[i] <= out[j]
InverseLaw == law => \A i \in DOMAIN A : IsNum(A[i]) /\ out[i] > 0 =>
   \E k \in Ks : k >= 0 /\ RainOf(cfg.b, k) = out[i] /\ Forward(cfg.g, cfg.b, k) = A[i]
Elementwise == [][SubSeq(out', 1, Len(out)) = out]_vars
Args == kind = "args" => (ArgsOK(cfg.f, cfg.pol, cfg.a, cfg.b) <=> (cfg.f = cfg.pol /\ cfg.a = cfg.b /\ cfg.f # cfg.a))
Emit == (law /\ A = <<>>) \/
   PrintT("@@" \o (IF law THEN ToJson([kind |-> "law", b |-> cfg.b, g |-> cfg.g, rmin |-> cfg.rmin, A |-> A, out |-> out])
                   ELSE ToJson([kind |-> "args", f |-> cfg.f, pol |-> cfg.pol, a |-> cfg.a, b |-> cfg.b,
                                ok |-> ArgsOK(cfg.f, cfg.pol, cfg.a, cfg.b)])))
=============================================================================
