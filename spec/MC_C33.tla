------------------------------ MODULE MC_C33 ------------------------------
(* Histories of imports, calls and installations in a process with or without the optional dependencies. *)
EXTENDS C33, Json
CONSTANTS Depth, Sel
VARIABLES s, hist, init, h
vars == <<s, hist, init, h>>
Init == \E a \in BOOLEAN, b \in BOOLEAN, e \in BOOLEAN :
          /\ s = Start(a, b, e) /\ init = s /\ hist = <<>>
          /\ h = 1 + (IF a THEN 1 ELSE 0) + 2 * (IF b THEN 1 ELSE 0) + 4 * (IF e THEN 1 ELSE 0)
\* n selects one of the modules of the group, the way to import it, or the function to call
Steps == {[op |-> "import", g |-> g] : g \in {"plain", "torch", "tf"}} \cup {[op |-> o] : o \in {"call", "use"}}
         \cup {[op |-> "add", g |-> g] : g \in {"torch", "tf"}}
Num(x) == CASE x.op = "call" -> 1 [] x.op = "use" -> 2
            [] x.op = "import" -> (CASE x.g = "plain" -> 3 [] x.g = "torch" -> 4 [] x.g = "tf" -> 5)
            [] x.op = "add" -> (IF x.g = "torch" THEN 6 ELSE 7)
Next == Len(hist) < Depth /\ \E x \in Steps :
          LET r == Do(s, x)  k == (h * 19 + Num(x)) % 10007 IN
          /\ x.op = "add" => r.s # s
          /\ s' = r.s /\ h' = k /\ UNCHANGED init
          /\ hist' = Append(hist, [x |-> x, n |-> k, exc |-> r.exc, told |-> r.told, tl |-> r.s.tl, fl |-> r.s.fl, named |-> r.s.named])
Spec == Init /\ [][Next]_vars
Did(op, g) == \E i \in DOMAIN hist : hist[i].x.op = op /\ (op = "import" => hist[i].x.g = g)
\* nothing is loaded that is not there or was not asked for
Asked == (s.tl => s.torch /\ Did("import", "torch")) /\ (s.fl => s.tf /\ Did("use", ""))
\* the core never fails, whatever happened before, and failing imports change nothing
CoreWorks == \A i \in DOMAIN hist : (hist[i].x.op \in {"call", "add"} \/ (hist[i].x.op = "import" /\ hist[i].x.g # "torch")) => hist[i].exc = ""
NoTrace == [][\A x \in Steps : Do(s, x).exc = "torch" => Do(s, x).s = s]_vars
\* a dependency that is missing is missed only until it is there
Recovers == \A i, j \in DOMAIN hist : (i < j /\ hist[i].x = hist[j].x /\ hist[i].exc = "") => hist[j].exc = ""
LoadedStays == [][(s.tl => s'.tl) /\ (s.fl => s'.fl) /\ (s.named => s'.named)]_vars
\* the permission to install matters for nothing here
EnvFree == \A x \in Steps : LET o == [s EXCEPT !.env = ~@]  p == Do(s, x)  q == Do(o, x) IN p.exc = q.exc /\ p.told = q.told /\ [p.s EXCEPT !.env = ~@] = q.s
Emit == IF hist # <<>> /\ hist[Len(hist)].x.op # "add" /\ (Len(hist) = 1 \/ h % Sel = 0)
        THEN PrintT("@@" \o ToJson([torch |-> init.torch, tf |-> init.tf, env |-> init.env, steps |-> hist])) ELSE TRUE
=============================================================================
