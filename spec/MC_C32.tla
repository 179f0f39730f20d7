------------------------------- MODULE MC_C32 -------------------------------
(* Link and reference arrive time step by time step; each may be absent or missing. *)
EXTENDS C32, Json
CONSTANTS MaxLen, Full
VARIABLES k, ref, link
vars == <<k, ref, link>>
Absent == -9
\* values of the link are position coded
LV(i) == {Absent, NaN, i * i % 7, 3}
RV(i) == {Absent, (5 * i) % 7, 2, NaN}
Init == k = 0 /\ ref = <<>> /\ link = <<>>
Next == /\ k < MaxLen /\ k' = k + 1
        /\ \E a \in RV(k + 1), b \in LV(k + 1) : ref' = Append(ref, a) /\ link' = Append(link, b)
Spec == Init /\ [][Next]_vars
Fun(s) == [t \in {i \in DOMAIN s : s[i] # Absent} |-> s[t]]
R == Fun(ref)
L == Fun(link)
M == Moments(R, L)
\* Cauchy-Schwarz, symmetry, one-sided times do not matter
Bounded == M.num * M.num <= M.vx * M.vy /\ M.vx >= 0 /\ M.vy >= 0
Sym == LET q == Moments(L, R) IN q.num = M.num /\ q.vx = M.vy /\ q.vy = M.vx
OneSided == [][k' = k + 1 /\ (~(k' \in DOMAIN Fun(ref')) \/ ~(k' \in DOMAIN Fun(link'))) => M' = M]_vars
\* wet/dry series from the same steps
W(s) == [i \in DOMAIN s |-> IF s[i] = NaN \/ s[i] = Absent THEN NaN ELSE IF s[i] >= 3 THEN 1 ELSE 0]
T == W(ref)
P == W(link)
F == FalseWet(T, P)
G == Missed(T, P)
RatesOK == F.n <= F.d /\ G.n <= G.d /\ F.d + G.d + All(T, NaN) = k
\* without missing values: the contingency table
Agree == (All(T, NaN) + All(P, NaN) = 0) =>
   LET c == CT!Table(T, P) IN F.n = c.fp /\ F.d = CT!NDry(c) /\ G.n = c.fn /\ G.d = CT!NWet(c)
Hash == FoldLeftDomain(LAMBDA a, i : (a * 7 + (ref[i] % 11) + 3 * (link[i] % 13)) % 101, 5, ref)
Emit == (k >= 1 /\ (k <= Full \/ Hash % 11 = 0)) =>
   PrintT("@@" \o ToJson([ref |-> ref, link |-> link, t |-> T, p |-> P, m |-> M, f |-> F, g |-> G]))
=============================================================================
