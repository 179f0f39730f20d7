-------------------------------- MODULE C14 --------------------------------
(***************************************************************************)
(* Points to grid: grid generation, placement of values, missing stations.  *)
(***************************************************************************)
EXTENDS IDW
\* coordinates of a generated axis for integer station coordinates cs (a set) and resolution r:
\* from one resolution below the smallest in steps of r up to the first one not below the largest
Axis(cs, r) == LET lo == Min(cs) - r  n == 1 + ((Max(cs) - lo + r - 1) \div r) IN [k \in 1..n |-> lo + (k - 1) * r]
\* grid: rows of points <<x, y>>
GenGrid(st, r) ==
  LET xs == Axis({st[i][1] : i \in DOMAIN st}, r)  ys == Axis({st[i][2] : i \in DOMAIN st}, r) IN
  [i \in DOMAIN ys |-> [j \in DOMAIN xs |-> <<xs[j], ys[i]>>]]
Present(st) == SelectSeq(st, LAMBDA s : s[3] # NaN)
\* admissible results for every grid point, IDW with p = 2
GridResult(st, grid, nnear, maxd2, excl) ==
  LET s == IF excl THEN Present(st) ELSE st IN
  [i \in DOMAIN grid |-> [j \in DOMAIN grid[i] |->
     IF Present(st) = <<>> THEN {Missing} ELSE Results2(s, grid[i][j], nnear, maxd2)]]

ResM14(e, k, U) ==
  LET st == Present(e.st) IN
  IF U = {} THEN {NaN}
  ELSE LET At == {i \in U : D2(st[i], e.q[k]) = 0} IN
       IF At # {} THEN {st[i][3] * e.S : i \in At}
       ELSE {LET num == FoldSet(LAMBDA i, a : a + e.w[k][i] * st[i][3], 0, U)
                 den == FoldSet(LAMBDA i, a : a + e.w[k][i], 0, U) IN (num * e.S) \div den}

Bad(e) ==
  CASE e.k = "idw" ->    \* measured weights as in C12, per grid point in row-major order of the *expected* grid
       IF e.exc # "" THEN {"raised"}
       ELSE IF e.shape # e.wantshape THEN {"shape"}
       ELSE UNION {
          LET rs == IF Present(e.st) = <<>> THEN {NaN}
                    ELSE UNION {ResM14(e, k, U) : U \in UsedSets(Present(e.st), e.q[k], e.nnear, e.maxd2)} IN
          Fail(~\E r \in rs : Near(e.out[k], r, e.tol), IF Present(e.st) = <<>> THEN "all values missing" ELSE "value at a grid point")
          : k \in DOMAIN e.q }
    [] e.k = "grid" ->   \* generated axes (scaled), lo/hi: extreme station coordinates, r: resolution
       IF e.exc # "" THEN {"raised"}
       ELSE UNION { LET a == e.axes[c] IN
          IF a.v = <<>> THEN {"empty axis"}
          ELSE Fail(~Near(a.v[1], a.lo - a.r, 2), "start of the axis")
            \cup Fail(\E k \in 1..(Len(a.v) - 1) : ~Near(a.v[k + 1] - a.v[k], a.r, 2), "steps of the axis")
            \cup Fail(a.v[Len(a.v)] < a.hi - 2 \/ a.v[Len(a.v)] > a.hi + a.r + 2, "end of the axis")
          : c \in DOMAIN e.axes }
       \cup Fail(~e.mesh, "axes are not constant along the other dimension") \cup Fail(~e.shapeok, "shape")
    [] e.k = "reject" -> Fail(e.exc # "ValueError", "neither grid nor resolution accepted")
    [] e.k = "krig" ->   \* out: values at the grid points; st[i].at: index of the grid point at the station
       IF e.exc # "" THEN {"raised"}
       ELSE IF e.shape # e.wantshape THEN {"shape"}
       ELSE Fail(\E i \in DOMAIN e.z : e.z[i] # NaN /\ e.at[i] > 0 /\ ~Near(e.out[e.at[i]], e.z[i], e.tol), "station value not honoured")
         \cup Fail(e.const # NaN /\ \E k \in DOMAIN e.out : ~Near(e.out[k], e.const, e.tol), "constant field")
         \cup Fail(\E k \in DOMAIN e.out : ~Near(e.out[k], e.without[k], e.tol), "influence of a missing station")
         \* the value is the ordinary kriging estimate: weights lam which solve the system of the variogram (a certificate
         \* computed by the driver and checked here), applied to the station values
         \cup UNION {LET c == e.cert[k]  n == Len(c.z)  Lin(v) == FoldFunctionOnSet(+, 0, [i \in 1..n |-> c.lam[i] * v[i]], 1..n) IN
                Fail(\E i \in 1..n : Abs(Lin(c.G[i]) + c.mu * 10000 - c.g[i] * 10000) > 25000 * n, "certificate: equations")
                \cup Fail(Abs(Lin([i \in 1..n |-> 1]) - 10000) > n, "certificate: sum of the weights")
                \cup Fail(~IsNum(e.out[k]) \/ Abs(Lin(c.z) \div 10000 - (e.out[k] \div 100)) > 12, "kriging estimate")
              : k \in DOMAIN e.cert}
         \cup Fail(e.allnan /\ \E k \in DOMAIN e.out : e.out[k] # NaN, "all values missing")
=============================================================================
