-------------------------------- MODULE C26 --------------------------------
(***************************************************************************)
(* Coverage mask.  Points and links <<x1, y1, x2, y2>> in integer units,    *)
(* d the maximum distance.                                                  *)
(***************************************************************************)
EXTENDS Common
Sq(x) == x * x
\* comparison of the distance of point p to the segment with d: 1 certainly covered, 0 not, 2 open (within 0.5 % below d)
Cmp(num, den, d) == IF num > Sq(d) * den THEN 0 ELSE IF num * 100 <= Sq(d) * den * 99 THEN 1 ELSE 2
Near1(p, s, d) ==
  LET vx == s[3] - s[1]  vy == s[4] - s[2]  wx == p[1] - s[1]  wy == p[2] - s[2]
      l2 == Sq(vx) + Sq(vy)  t == vx * wx + vy * wy
  IN IF t <= 0 THEN Cmp(Sq(wx) + Sq(wy), 1, d)
     ELSE IF t >= l2 THEN Cmp(Sq(p[1] - s[3]) + Sq(p[2] - s[4]), 1, d)
     ELSE Cmp(Sq(vx * wy - vy * wx), l2, d)
Join(a, b) == IF a = 1 \/ b = 1 THEN 1 ELSE IF a = 2 \/ b = 2 THEN 2 ELSE 0
Cover(p, links, d) == FoldLeft(LAMBDA a, s : Join(a, Near1(p, s, d)), 0, links)
\* xs, ys: grids (rows of coordinates)
Mask(xs, ys, links, d) == [i \in DOMAIN xs |-> [j \in DOMAIN xs[i] |-> Cover(<<xs[i][j], ys[i][j]>>, links, d)]]
Agrees(m, want) ==
  /\ Len(m) = Len(want)
  /\ \A i \in DOMAIN m : Len(m[i]) = Len(want[i]) /\ \A j \in DOMAIN m[i] : m[i][j] \in {0, 1} /\ (want[i][j] = 2 \/ m[i][j] = want[i][j])
Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE Fail(~Agrees(e.mask, Mask(e.xs, e.ys, e.links, e.d)), "mask against the distance to the link paths")
       \cup Fail(~Agrees(e.mask2, Mask(e.xs, e.ys, e.links, e.d)), "depends on the order of the links")
=============================================================================
