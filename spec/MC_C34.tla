------------------------------ MODULE MC_C34 ------------------------------
(* Histories of reading, editing the results, and replacing the file. *)
EXTENDS C34, Json
CONSTANTS Depth, Sel
VARIABLES s, hist, init, h
vars == <<s, hist, init, h>>
Contents == 1..3
Init == \E v \in {0} \cup Contents : s = Start(v) /\ init = v /\ hist = <<>> /\ h = v + 1
Steps == {[op |-> o] : o \in {"read", "delete", "cd"}} \cup {[op |-> "write", v |-> v] : v \in Contents}
         \cup {[op |-> "example", f |-> f] : f \in Examples} \cup {[op |-> "edit", k |-> k] : k \in 1..2}
Num(x) == CASE x.op = "read" -> 1 [] x.op = "delete" -> 2 [] x.op = "cd" -> 3 [] x.op = "write" -> 3 + x.v [] x.op = "edit" -> 6 + x.k
            [] x.op = "example" -> (CASE x.f = "one" -> 9 [] x.f = "many" -> 10 [] x.f = "minmax" -> 11)
Next == Len(hist) < Depth /\ \E x \in Steps :
          LET r == Do(s, x) IN
          /\ (x.op = "edit" => x.k <= Len(s.res)) /\ (x.op = "delete" => s.disk # 0) /\ (x.op = "write" => x.v # s.disk)
          /\ s' = r.s /\ hist' = Append(hist, [x |-> x, exc |-> r.exc, res |-> r.s.res, disk |-> r.s.disk])
          /\ UNCHANGED init /\ h' = (h * 23 + Num(x)) % 10007
Spec == Init /\ [][Next]_vars
\* a result is what was on disk when it was read, until its owner edits it
Snapshot == [][\A i \in DOMAIN s.res : s'.res[i].of = s.res[i].of /\ (s'.res[i].ed # s.res[i].ed => hist'[Len(hist')].x = [op |-> "edit", k |-> i])]_vars
\* reading changes no file, results change no file
ReadOnly == [][s'.disk # s.disk => hist'[Len(hist')].x.op \in {"write", "delete"}]_vars
\* examples and reading do not depend on the working directory
Anywhere == \A x \in Steps : x.op # "cd" => [Do([s EXCEPT !.cwd = 1 - @], x) EXCEPT !.s.cwd = s.cwd] = Do(s, x)
\* the same example gives the same content at any time
Same == \A i \in DOMAIN hist : hist[i].x.op = "example" => hist[i].res[Len(hist[i].res)] = [of |-> hist[i].x.f, ed |-> 0]
Emit == IF hist # <<>> /\ s.res # <<>> /\ (Len(hist) = 1 \/ (Len(hist) >= 3 /\ h % Sel = 0))
        THEN PrintT("@@" \o ToJson([disk |-> init, steps |-> hist])) ELSE TRUE
=============================================================================
