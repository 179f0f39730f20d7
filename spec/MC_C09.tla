------------------------------- MODULE MC_C09 -------------------------------
EXTENDS C09, Json
CONSTANTS Pos, MaxLinks
PosQuick == {-2, 5, 178}         \* -2 and 178 are opposite points
PosThorough == {-2, 0, 5, 90, 178}
VARIABLES links
Init == links = <<>>
Next == Len(links) < MaxLinks /\ \E a \in Pos, b \in Pos : links' = Append(links, [a |-> a, b |-> b])
Spec == Init /\ [][Next]_links
I == 1..Len(links)
M == [m \in 1..4 |-> [i \in I |-> [j \in I |-> Entry(links, m, i, j)]]]
ZeroDiagonal == \A m \in 1..4, i \in I : M[m][i][i] = 0
Transpose == \A i \in I, j \in I : M[2][i][j] = M[3][j][i]
Symmetric == \A m \in {1, 4}, i \in I, j \in I : M[m][i][j] = M[m][j][i]
Triangle == \A i, j, k \in I : i # j /\ j # k /\ i # k => M[1][i][k] <= M[1][i][j] + M[1][j][k]
\* exchanging the two ends of all links exchanges the matrices
Flip == LET fl == [i \in I |-> [a |-> links[i].b, b |-> links[i].a]] IN
        \A i, j \in I : Entry(fl, 1, i, j) = M[4][i][j] /\ Entry(fl, 2, i, j) = M[3][i][j]
Emit == links = <<>> \/ PrintT("@@" \o ToJson([links |-> links, m |-> M]))
=============================================================================
