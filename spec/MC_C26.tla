------------------------------- MODULE MC_C26 -------------------------------
(* Links are added one by one, the covered area only grows; all small arrangements. *)
EXTENDS C26, Json
CONSTANTS B, Ds, MaxL, Keep, Grids
VARIABLES g, d, links, mask
vars == <<g, d, links, mask>>
\* grids: regular 2x3, single column, irregular 3x2 (not monotonic), single point
Grid(k) == CASE k = 1 -> [x |-> <<<<0, 2, 4>>, <<0, 2, 4>>>>, y |-> <<<<1, 1, 1>>, <<3, 3, 3>>>>]
             [] k = 2 -> [x |-> <<<<1>>, <<2>>, <<3>>, <<4>>>>, y |-> <<<<4>>, <<2>>, <<0>>, <<5>>>>]
             [] k = 3 -> [x |-> <<<<4, 0>>, <<1, 3>>, <<2, 2>>>>, y |-> <<<<0, 4>>, <<3, 1>>, <<5, 2>>>>]
             [] k = 4 -> [x |-> <<<<2>>>>, y |-> <<<<1>>>>]
             [] k = 5 -> [x |-> <<<<0, 1, 2, 3, 4, 5>>>>, y |-> <<<<2, 2, 2, 2, 2, 2>>>>]
Seg == {<<a, b, a2, b2>> : a \in 0..B, b \in 0..B, a2 \in 0..B, b2 \in 0..B}
Init == /\ g \in Grids /\ d \in Ds /\ links = <<>>
        /\ mask = Mask(Grid(g).x, Grid(g).y, <<>>, 1)
Hash(q) == FoldLeft(LAMBDA a, s : (a * 31 + s[1] * 7 + s[2] * 11 + s[3] * 13 + s[4] * 17 + (s[1] * s[4]) + 3) % 1009, 5, q)
Next == /\ Len(links) < MaxL
        /\ (links = <<>> \/ Hash(links) % 7 = 0)
        /\ \E s \in Seg :
             /\ (links # <<>> => Hash(Append(links, s)) % Keep = 0)
             /\ links' = Append(links, s)
             /\ mask' = [i \in DOMAIN mask |-> [j \in DOMAIN mask[i] |-> Join(mask[i][j], Near1(<<Grid(g).x[i][j], Grid(g).y[i][j]>>, s, d))]]
        /\ UNCHANGED <<g, d>>
Spec == Init /\ [][Next]_vars
Incremental == mask = Mask(Grid(g).x, Grid(g).y, links, d)
OrderFree == mask = Mask(Grid(g).x, Grid(g).y, Reverse(links), d)
Grows == [][\A i \in DOMAIN mask : \A j \in DOMAIN mask[i] : mask[i][j] = 1 => mask'[i][j] = 1]_vars
\* end points are covered, swapping the ends changes nothing
Ends == \A k \in DOMAIN links : LET s == links[k] IN
          /\ Near1(<<s[1], s[2]>>, s, d) = 1 /\ Near1(<<s[3], s[4]>>, s, d) = 1
          /\ \A i \in DOMAIN mask : \A j \in DOMAIN mask[i] :
               LET p == <<Grid(g).x[i][j], Grid(g).y[i][j]>> IN Near1(p, s, d) = Near1(p, <<s[3], s[4], s[1], s[2]>>, d)
Emit == (Len(links) = 1 /\ Hash(links) % 3 # 0) \/ PrintT("@@" \o ToJson([xs |-> Grid(g).x, ys |-> Grid(g).y, d |-> d, links |-> links, mask |-> mask]))
=============================================================================
