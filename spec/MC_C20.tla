------------------------------- MODULE MC_C20 -------------------------------
(* Interface level: all histories (hist kept if Gen) and the full reachable graph (without). *)
EXTENDS C20, Json
CONSTANTS P, U, D, N, MaxVer, MaxSteps, Gen, Keep
VARIABLES s, last, hist
vars == <<s, last, hist>>
None == [op |-> "init"]
Kinds == IF Gen THEN {"short", "reset", "http"} ELSE {"short"}
Steps == [op : {"get"}, p : 1..P, d : 1..D, u : 1..U, force : BOOLEAN]
    \cup [op : {"part", "kill"}, p : 1..P] \cup [op : {"fail"}, p : 1..P, kind : Kinds]
    \cup [op : {"bump"}, u : 1..U] \cup [op : {"list", "clear"}, d : 1..D]
Init == s = InitState(P, U, D) /\ last = [x |-> None, r |-> <<"none", 0>>] /\ hist = <<>>
Next == /\ (~Gen \/ Len(hist) < MaxSteps)
        /\ \E x \in Steps :
             /\ Enabled(s, x)
             /\ (x.op = "bump" => s.srv[x.u] < MaxVer)
             /\ (x.op = "fail" => (x.kind = "http" => s.pr[x.p].k = 0))
             /\ IF Gen THEN /\ hist = <<>> => x.op = "get"
                            /\ (x.op = "get" /\ x.p = 2) => s.pr[1].st = "dl"     \* symmetry: idle processes are alike
                            /\ (x.op = "get" /\ x.u = 2) => \E i \in DOMAIN hist : hist[i].x.op = "get"
                            /\ (x.op \in {"list", "bump", "clear"}) => (hist # <<>> => hist[Len(hist)].x.op # x.op)
                       ELSE TRUE
             /\ LET n == Apply(s, x, N) IN
                /\ s' = n.s /\ last' = [x |-> x, r |-> n.r]
                /\ hist' = IF Gen THEN Append(hist, [x |-> x, r |-> n.r]) ELSE hist
Spec == Init /\ [][Next]_vars
(* ---- the property ---- *)
\* what a call returns is a complete version of that URL that the server has delivered
Complete == last.r[1] = "ret" => last.r[2] \in 1..MaxVer
CachedIsDelivered == \A d \in 1..D, u \in 1..U : s.fin[d][u] <= s.srv[u]
\* a failing or killed download leaves the cache as it was; a cached file is returned without contact
FailKeepsCache == [][last'.x.op \in {"fail", "kill", "get", "list", "bump"} => s'.fin = s.fin]_vars
NoContactIfCached == [][last'.x.op = "get" /\ s.fin[last'.x.d][last'.x.u] # 0 /\ ~last'.x.force => s' = s /\ last'.r[1] = "ret"]_vars
OthersUntouched == [][last'.x.op = "part" => LET q == s.pr[last'.x.p] IN
     \A d \in 1..D, u \in 1..U : (<<d, u>> # <<q.d, q.u>>) => s'.fin[d][u] = s.fin[d][u]]_vars
CachedOnlyByCompletion == [][\A d \in 1..D, u \in 1..U : s'.fin[d][u] # s.fin[d][u] => last'.x.op \in {"part", "clear"}]_vars
Code(x) == (CASE x.op = "get" -> 1 + (IF x.force THEN 11 ELSE 0) + 3 * x.u [] x.op = "part" -> 20 [] x.op = "kill" -> 21 [] x.op = "fail" -> 22
   [] x.op = "bump" -> 23 + x.u [] x.op = "list" -> 26 [] x.op = "clear" -> 27) + (IF x.op \in {"get", "part", "kill", "fail"} THEN 31 * x.p ELSE 0)
Hash == FoldLeft(LAMBDA a, h : (a * 131 + Code(h.x)) % 1000003, 17, hist)
Emit == ~Gen \/ Len(hist) < MaxSteps \/ Hash % Keep # 0 \/ PrintT("@@" \o ToJson([P |-> P, U |-> U, D |-> D, N |-> N, hist |-> hist, fin |-> s.fin]))
=============================================================================
