-------------------------------- MODULE C05 --------------------------------
(***************************************************************************)
(* Coefficients of the k-R power law: lookup in the ITU tables, and the     *)
(* defining conditions of a cubic spline through them.                      *)
(***************************************************************************)
EXTENDS Common, ITU

Spell == [H |-> {"h", "H", "horizontal", "Horizontal"}, V |-> {"v", "V", "vertical", "Vertical"}]
Known(p) == p \in Spell.H \cup Spell.V
PolOf(p) == IF p \in Spell.H THEN "H" ELSE "V"
Approx == {"ITU_2003", "ITU_2005"}
Freqs(t) == IF t = "ITU_2005" THEN F2005 ELSE F2003
Tab(t, p, c) == CASE t = "ITU_2005" /\ p = "H" /\ c = "a" -> KH2005
                  [] t = "ITU_2005" /\ p = "V" /\ c = "a" -> KV2005
                  [] t = "ITU_2005" /\ p = "H" /\ c = "b" -> AH2005
                  [] t = "ITU_2005" /\ p = "V" /\ c = "b" -> AV2005
                  [] t = "ITU_2003" /\ p = "H" /\ c = "a" -> KH2003
                  [] t = "ITU_2003" /\ p = "V" /\ c = "a" -> KV2003
                  [] t = "ITU_2003" /\ p = "H" /\ c = "b" -> AH2003
                  [] t = "ITU_2003" /\ p = "V" /\ c = "b" -> AV2003
UnitA == 1   \* recorded a in 1e-8, recorded b in 1e-8: table of b is in 1e-4
Mult(c) == IF c = "a" THEN 1 ELSE 10000

\* f in 0.5 GHz
InRange(f) == f >= 2 /\ f <= 200
CallOK(fs, ps, t) == /\ t \in Approx /\ Len(fs) = Len(ps)
                     /\ \A i \in DOMAIN fs : InRange(fs[i])
                     /\ \A i \in DOMAIN ps : Known(ps[i])
Index(t, f) == CHOOSE i \in DOMAIN Freqs(t) : Freqs(t)[i] = f
Tabulated(t, f) == \E i \in DOMAIN Freqs(t) : Freqs(t)[i] = f
Lookup(t, f, p, c) == Tab(t, PolOf(p), c)[Index(t, f)] * Mult(c)

(***************************************************************************)
(* the curve between the nodes: y[i] = <<at node, 1/3, 1/2, 2/3, at next>>  *)
(***************************************************************************)
\* h * first and h^2 * second derivative at the left and right end of a cubic, from thirds
D1L(y) == 18 * (y[2] - y[1]) - 9 * (y[4] - y[1]) + 2 * (y[5] - y[1])      \* 2 h f'
D1R(y) == 18 * (y[5] - y[4]) - 9 * (y[5] - y[2]) + 2 * (y[5] - y[1])
D2L(y) == 4 * (y[4] - y[1]) - 5 * (y[2] - y[1]) - (y[5] - y[1])           \* h^2 f'' / 9
D2R(y) == 4 * (y[2] - y[5]) - 5 * (y[4] - y[5]) - (y[1] - y[5])
Cubic(y) == Abs(16 * (y[3] - y[1]) - (9 * (y[2] - y[1]) + 9 * (y[4] - y[1]) - (y[5] - y[1]))) <= 24
\* widths of neighbouring intervals (0.5 GHz); derivatives compared after cross multiplication
Join1(y, z, hy, hz) == Abs(D1R(y) * hz - D1L(z) * hy) <= 80 * (hy + hz)
Join2(y, z, hy, hz) == Abs(D2R(y) * hz * hz - D2L(z) * hy * hy) <= 12 * (hy * hy + hz * hz)

CurveBad(e) ==
  LET F == Freqs(e.t)  T == Tab(e.t, e.pol, e.c)  n == Len(F)  Y == e.y  M == Mult(e.c) IN
  IF Len(Y) # n - 1 THEN {"length"}
  ELSE Fail(\E i \in 1..(n-1) : \E k \in 1..5 : ~IsNum(Y[i][k]), "not a number")
    \cup Fail(\E i \in 1..(n-1) : Abs(Y[i][1] - T[i] * M) > 1 \/ Abs(Y[i][5] - T[i+1] * M) > 1, "table value")
    \cup Fail(\E i \in 1..(n-1) : ~Cubic(Y[i]), "not cubic between nodes")
    \cup Fail(\E i \in 1..(n-2) : ~Join1(Y[i], Y[i+1], F[i+1] - F[i], F[i+2] - F[i+1]), "kink at a node")
    \cup Fail(\E i \in 1..(n-2) : ~Join2(Y[i], Y[i+1], F[i+1] - F[i], F[i+2] - F[i+1]), "curvature jumps at a node")

Bad(e) ==
  CASE e.k = "curve" -> IF e.exc # "" THEN {"raised"} ELSE CurveBad(e)
    [] e.k = "elem" ->  \* a/b of a whole array against those of each element alone (ra, rb)
       IF e.exc # "" THEN {"raised"}
       ELSE IF ~e.shape THEN {"shape or coordinates"}
       ELSE IF Len(e.a) # Len(e.ra) \/ Len(e.b) # Len(e.rb) THEN {"length"}
       ELSE Fail(\E i \in DOMAIN e.a : e.a[i] # e.ra[i] \/ e.b[i] # e.rb[i], "element depends on others")
         \cup Fail(\E i \in DOMAIN e.a : e.f2[i] # 0 /\ Tabulated(e.t, e.f2[i]) /\
                     (Abs(e.a[i] - Lookup(e.t, e.f2[i], e.p[i], "a")) > 1
                      \/ Abs(e.b[i] - Lookup(e.t, e.f2[i], e.p[i], "b")) > 1), "table value")
    [] e.k = "reject" -> Fail(e.exc # "ValueError", "not rejected")
=============================================================================
