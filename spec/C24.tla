-------------------------------- MODULE C24 --------------------------------
(***************************************************************************)
(* STFT classification.  P[i][j]: power of frequency i in window j; window  *)
(* j belongs to step j + floor(nd / 2) of the nd + #windows steps of the    *)
(* series.  Steps are 1-based, the dry period is given as the steps a..b.   *)
(***************************************************************************)
EXTENDS Common
Steps(P, nd) == Len(P[1]) + nd
Col(P, nd, t) == t - nd \div 2                    \* window of step t
HasCol(P, nd, t) == Col(P, nd, t) \in DOMAIN P[1]
Avail(P, nd, t) == HasCol(P, nd, t) /\ P[1][Col(P, nd, t)] # NaN
DrySteps(P, nd, a, b) == {t \in a..b : Avail(P, nd, t)}
SumDry(P, nd, i, dry) == FoldSet(LAMBDA t, s : s + P[i][Col(P, nd, t)], 0, dry)
Low(f, fd) == {i \in DOMAIN f : f[i] <= fd}
High(f, fd) == {i \in DOMAIN f : f[i] > fd}
Prod(S) == FoldLeft(LAMBDA x, y : x * y, 1, S)
Pow2s == {1, 2, 4, 8, 16, 32, 64, 128}
\* 1 wet, 0 not wet, 2 either (equality in exact arithmetic that floating point need not hit); threshold thr/den.
\* S[i]: sum of the power over the dry steps, n: their number
Wet(P, nd, f, fd, S, n, thr, den, t) ==
  IF ~Avail(P, nd, t) \/ n = 0 \/ Low(f, fd) = {} \/ High(f, fd) = {} THEN 0
  ELSE LET D == Prod(S)  L == Low(f, fd)  H == High(f, fd)  j == Col(P, nd, t)
           nl == Cardinality(L)  nh == Cardinality(H)
           sum(I) == FoldSet(LAMBDA i, x : x + P[i][j] * (D \div S[i]), 0, I)
           left == den * n * (nh * sum(L) - nl * sum(H))
           right == thr * D * nl * nh
       IN IF left > right THEN 1 ELSE IF left < right THEN 0
          ELSE IF {nl, nh} \cup {S[i] : i \in DOMAIN S} \subseteq Pow2s THEN 0 ELSE 2
WetAll(P, nd, f, fd, a, b, thr, den) ==
  LET dry == DrySteps(P, nd, a, b)
      S == [i \in DOMAIN P |-> SumDry(P, nd, i, dry)]
  IN [t \in 1..Steps(P, nd) |-> Wet(P, nd, f, fd, S, Cardinality(dry), thr, den, t)]

\* ---- from the series, power of the windows given as scaled integers (every frequency has its own scale) ----
\* normalised power in 1/1000
Norm(P, S, n, i, j) == IF S[i] = 0 THEN 0 ELSE (P[i][j] * 1000) \div MaxOf(1, S[i] \div n)
\* variance of window [a, a + L) times L*L, missing if it contains a missing value
Var(x, a, L) == LET q == SubSeq(x, a, a + L - 1) IN
  IF \E k \in DOMAIN q : q[k] = NaN THEN NaN
  ELSE LET m == q[1] IN L * FoldLeft(LAMBDA s, v : s + (v - m) * (v - m), 0, q) - FoldLeft(LAMBDA s, v : s + v - m, 0, q) ^ 2
MinVar(x, L) == {a \in 1..(Len(x) - L + 1) : Var(x, a, L) # NaN /\ \A c \in 1..(Len(x) - L + 1) : Var(x, a, L) <= Var(x, c, L)}

Bad(e) ==
  CASE e.k = "dry" -> IF e.exc # "" THEN {"raised"} ELSE Fail(e.stop - e.start # e.L \/ (e.start + 1) \notin MinVar(e.x, e.L), "not the window with the lowest standard deviation")
    [] e.k = "args" -> Fail((e.exc # "") # e.reject, "arguments for the dry period or the spectrogram")
    [] OTHER ->
       IF e.exc # "" THEN {"raised"}
       ELSE IF Len(e.wet) # Steps(e.P, e.nd) THEN {"length"}
       ELSE LET dry == DrySteps(e.P, e.nd, e.a, e.b)
                n == Cardinality(dry)
                S == [i \in DOMAIN e.P |-> SumDry(e.P, e.nd, i, dry)]
                L == Low(e.f, e.fd)  H == High(e.f, e.fd)
                avg(I, j) == FoldSet(LAMBDA i, x : x + Norm(e.P, S, n, i, j), 0, I) \div Cardinality(I)
                ok(t) == IF ~Avail(e.P, e.nd, t) \/ n = 0 \/ L = {} \/ H = {} THEN e.wet[t] = 0
                         ELSE LET l == avg(L, Col(e.P, e.nd, t))  h == avg(H, Col(e.P, e.nd, t))
                                  tol == 4 + (l + h) \div 250  d == l - h - e.thr IN
                              IF d > tol THEN e.wet[t] = 1 ELSE IF d < -tol THEN e.wet[t] = 0 ELSE e.wet[t] \in {0, 1}
            IN Fail(\E t \in DOMAIN e.wet : ~e.mirr[t] /\ ~ok(t), "wet flag against band difference of the normalised spectrum")
               \cup Fail(e.wet2 # e.wet, "precomputed spectrogram gives another result")
               \cup Fail(e.L # 0 /\ (e.b - e.a + 1 # e.L \/ e.a \notin MinVar(e.x, e.L)), "dry period")
=============================================================================
