------------------------------- MODULE MC_C14 -------------------------------
EXTENDS C14, Json
CONSTANTS MaxN, Keep
VARIABLES par, st, grid, res
vars == <<par, st, grid, res>>
\* given grids: row, column, block, irregular one; 0: generated with the resolution
Grids == << << << <<0, 0>>, <<1, 0>>, <<2, 0>> >> >>,
            << << <<1, 0>> >>, << <<1, 1>> >>, << <<1, 3>> >> >>,
            << << <<0, 0>>, <<1, 0>>, <<2, 0>> >>, << <<0, 1>>, <<1, 1>>, <<2, 1>> >> >>,
            << << <<2, 1>>, <<0, 0>> >>, << <<1, 2>>, <<0, 2>> >> >> >>
Pars == [g : 0..4, r : {1, 2}, nnear : {2}, maxd2 : {NaN, 4}, excl : BOOLEAN] \cup [g : {0, 3}, r : {1}, nnear : {8}, maxd2 : {NaN}, excl : {TRUE}]
Where == {<<0, 0>>, <<1, 0>>, <<0, 2>>, <<2, 1>>}
Z == {-6, 20, NaN}
G(s, p) == IF p.g = 0 THEN GenGrid(s, p.r) ELSE Grids[p.g]
Obs(s, p) == grid' = G(s, p) /\ res' = GridResult(s, grid', p.nnear, p.maxd2, p.excl)
Init == /\ par \in {p \in Pars : p.g = 0 \/ p.r = 1}
        /\ st = <<>> /\ grid = <<>> /\ res = <<>>
Next == /\ Len(st) < MaxN
        /\ \E a \in Where, z \in Z : st' = Append(st, <<a[1], a[2], z>>) /\ Obs(st', par)
        /\ UNCHANGED par
Spec == Init /\ [][Next]_vars
(* ---- the property ---- *)
ShapeOK == Len(res) = Len(grid) /\ \A i \in DOMAIN grid : Len(res[i]) = Len(grid[i]) /\ Len(grid[i]) = Len(grid[1])
GeneratedCovers == st # <<>> /\ par.g = 0 =>
   LET n == Len(grid)  m == Len(grid[1]) IN
   /\ \A i \in DOMAIN st : grid[1][1][1] + par.r <= st[i][1] /\ grid[1][1][2] + par.r <= st[i][2]
   /\ \A i \in DOMAIN st : st[i][1] <= grid[n][m][1] /\ st[i][2] <= grid[n][m][2]
   /\ \E i \in DOMAIN st : st[i][1] + par.r > grid[n][m][1]
   /\ \E i \in DOMAIN st : st[i][2] + par.r > grid[n][m][2]
   /\ \A i \in 1..n, j \in 1..m : grid[i][j] = <<grid[1][1][1] + (j - 1) * par.r, grid[1][1][2] + (i - 1) * par.r>>
AllMissing == st # <<>> /\ (\A i \in DOMAIN st : st[i][3] = NaN) => \A i \in DOMAIN res : \A j \in DOMAIN res[i] : res[i][j] = {Missing}
\* adding a station with missing value changes nothing on a given grid when such stations are excluded
NoInfluence == [][par.excl /\ par.g # 0 /\ st # <<>> /\ st'[Len(st')][3] = NaN => res' = res]_vars
Hash == FoldLeft(LAMBDA a, s : (a * 5 + (s[1] % 7) + 3 * (s[2] % 5) + (s[3] % 11)) % 10007, par.nnear + 2 * par.g + 17 * par.r, st)
Emit == st = <<>> \/ (Len(st) > 2 /\ Hash % Keep # 0) \/
   PrintT("@@" \o ToJson([g |-> par.g, r |-> par.r, nnear |-> par.nnear, maxd2 |-> par.maxd2, excl |-> par.excl, st |-> st, grid |-> grid,
      res |-> [i \in DOMAIN res |-> [j \in DOMAIN res[i] |-> SetToSeq(res[i][j])]]]))
=============================================================================
