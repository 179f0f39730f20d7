------------------------------- MODULE MC_C24 -------------------------------
(* All small spectrograms, dry periods, frequency limits and thresholds. *)
EXTENDS C24, Json
CONSTANTS Vals, Nfs, Ncs, Nds, Keep
VARIABLES par, wet
vars == <<par, wet>>
F == <<0, 2, 5, 9>>
Thr == {0 - 2, 0, 1, 3}                \* halves
Init ==
  \E nf \in Nfs, nc \in Ncs : \E P \in [1..nf -> [1..nc -> Vals]] : par = [P |-> P] /\ wet = <<>>
Pick(P, nd, mis, fd, a, b, thr) ==
  LET nf == Len(P)  nc == Len(P[1])
      Q == [i \in 1..nf |-> [j \in 1..nc |-> IF j = mis THEN NaN ELSE P[i][j]]]
      h == FoldLeftDomain(LAMBDA x, i : FoldLeft(LAMBDA y, v : (y * 3 + v) % 1009, x, P[i]), 7 * a + 11 * b + 13 * nd + 3 * fd + 5 * thr + 17 * mis, P) IN
  /\ h % Keep = 0
  /\ par' = [P |-> Q, nd |-> nd, f |-> SubSeq(F, 1, nf), fd |-> fd, a |-> a, b |-> b, thr |-> thr]
  /\ wet' = WetAll(Q, nd, SubSeq(F, 1, nf), fd, a, b, thr, 2)
Next == /\ wet = <<>>
        /\ LET P == par.P  nc == Len(P[1]) IN
           \E nd \in Nds, fd \in {0 - 1, 0, 2, 3, 5}, thr \in Thr, mis \in 0..nc :
             /\ (mis # 0 => \A i \in DOMAIN P : P[i][mis] = CHOOSE v \in Vals : TRUE)
             /\ \E a \in 1..(nc + nd) : \E b \in {x \in {a, a + 1, nc + nd} : x >= a /\ x <= nc + nd} : Pick(P, nd, mis, fd, a, b, thr)
Spec == Init /\ [][Next]_vars
\* one value per step, none wet without a window
Shape == wet # <<>> => Len(wet) = Len(par.P[1]) + par.nd /\ \A t \in DOMAIN wet : ~Avail(par.P, par.nd, t) => wet[t] = 0
\* a larger threshold never makes a step wet
Monotone == wet # <<>> => LET w == WetAll(par.P, par.nd, par.f, par.fd, par.a, par.b, par.thr + 1, 2) IN \A t \in DOMAIN wet : w[t] = 1 => wet[t] # 0
\* the scale of a frequency cancels
ScaleFree == wet # <<>> => LET p2 == [par.P EXCEPT ![1] = [j \in DOMAIN par.P[1] |-> IF par.P[1][j] = NaN THEN NaN ELSE 2 * par.P[1][j]]] IN
             WetAll(p2, par.nd, par.f, par.fd, par.a, par.b, par.thr, 2) = wet
\* a step with the mean dry spectrum is wet exactly for a negative threshold
DryIsDry == wet # <<>> => (par.a = par.b /\ DrySteps(par.P, par.nd, par.a, par.b) # {} /\ Low(par.f, par.fd) # {} /\ High(par.f, par.fd) # {}
            => (wet[par.a] = IF par.thr < 0 THEN 1 ELSE 0) \/ wet[par.a] = 2)
Emit == wet = <<>> \/ PrintT("@@" \o ToJson([p |-> par, wet |-> wet]))
=============================================================================
