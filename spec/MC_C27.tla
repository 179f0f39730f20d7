------------------------------- MODULE MC_C27 -------------------------------
(* Histories of calls, edits of argument objects and edits of results.  Enumerated: a first    *)
(* call, then any other call, an edit of something used before, or an edit of a result, and so   *)
(* on, until a function is called again.                                                         *)
EXTENDS C27, Json
CONSTANTS Depth, Sel, Sel2
VARIABLES ver, hist, res, h
vars == <<ver, hist, res, h>>
Log(st, n) == hist' = Append(hist, st) /\ h' = (h * 31 + n) % 10007
Call(c) == /\ Log([op |-> "call", c |-> Name(c), n |-> c, key |-> Key(ver, c)], c)
           /\ res' = Append(res, <<c, Key(ver, c)>>) /\ UNCHANGED ver
Edit(c, i) == /\ ver' = Edited(ver, Uses(c)[i]) /\ Log([op |-> "edit", o |-> Uses(c)[i]], 200 + 5 * c + i) /\ UNCHANGED res
Scribble(c) == /\ Log([op |-> "scribble", c |-> Name(c)], 100 + c) /\ UNCHANGED <<ver, res>>
Called == {res[i][1] : i \in DOMAIN res}
Again == Len(hist) > 1 /\ hist[Len(hist)].op = "call"
         /\ \E i \in 1..(Len(res) - 1) : res[i][1] = res[Len(res)][1]
Init == ver = Ver0 /\ hist = <<>> /\ res = <<>> /\ h = 5
\* the first two calls are arbitrary; later steps go back to the first call, the others are selected by the hash
Next ==
  /\ Len(hist) < Depth
  /\ \/ \E c \in 1..NC : (IF Len(hist) < 2 \/ (c = res[1][1] /\ Len(hist) = 2) THEN TRUE ELSE (h + c) % Sel = 0) /\ Call(c)
     \/ \E c \in Called : \E i \in DOMAIN Uses(c) : (IF Len(hist) < 2 THEN TRUE ELSE (h + i) % Sel2 = 0) /\ Edit(c, i)
     \/ \E c \in Called : hist[Len(hist)].op = "call" /\ hist[Len(hist)].c = Name(c)
                           /\ (IF Len(hist) < 2 THEN TRUE ELSE h % Sel2 = 0) /\ Scribble(c)
Spec == Init /\ [][Next]_vars
\* calls change no object; results already returned stay; the result of a call is determined by
\* the function and what its objects hold at that time
Pure == [][Len(res') > Len(res) => ver' = ver]_vars
Stable == [][SubSeq(res', 1, Len(res)) = res]_vars
Repeatable ==
  \A i, j \in DOMAIN hist :
     (i < j /\ hist[i].op = "call" /\ hist[j].op = "call" /\ hist[i].c = hist[j].c
      /\ \A k \in (i + 1)..(j - 1) : hist[k].op = "edit" => hist[k].o \notin ToSet(Uses(hist[i].n)))
     => hist[i].key = hist[j].key
\* an object edited twice holds its first content again
Involution == \A k \in DOMAIN hist : hist[k].op = "edit" =>
                ver[hist[k].o] = Cardinality({m \in DOMAIN hist : hist[m].op = "edit" /\ hist[m].o = hist[k].o}) % 2
Emit == IF Again THEN PrintT("@@" \o ToJson([steps |-> hist, seed |-> h % 997])) ELSE TRUE
=============================================================================
