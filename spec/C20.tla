-------------------------------- MODULE C20 --------------------------------
(***************************************************************************)
(* The model cache as seen through its interface.  Several processes get    *)
(* URLs through cache directories from a server whose content changes.      *)
(*   srv[u]    version of the content the server delivers for URL u         *)
(*   fin[d][u] version cached in directory d, 0: none                       *)
(*   pr[p]     what process p does: idle, or downloading version v of u     *)
(*             into d with k of N parts received                            *)
(* A step is what the environment does (call, part arrives, transfer fails, *)
(* process killed, server content changes, list, clear); Apply gives the    *)
(* next state and the result that must be observed:                         *)
(*   <<"ret", v>> call returns, file holds version v     <<"exc", 0>> raises *)
(*   <<"dl", v>>  server contacted, call not returned    <<"none", 0>>      *)
(*   <<"list", S>> S: sum of 2^(u-1) over the cached URLs                   *)
(***************************************************************************)
EXTENDS Common
Idle == [st |-> "idle", d |-> 0, u |-> 0, v |-> 0, k |-> 0]
InitState(P, U, D) == [srv |-> [u \in 1..U |-> 1], fin |-> [d \in 1..D |-> [u \in 1..U |-> 0]], pr |-> [p \in 1..P |-> Idle]]
Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16
Listing(c) == FoldSet(LAMBDA u, a : a + (IF c[u] # 0 THEN Pow2(u - 1) ELSE 0), 0, DOMAIN c)
Active(s, d) == {p \in DOMAIN s.pr : s.pr[p].st = "dl" /\ s.pr[p].d = d}

Enabled(s, x) ==
  CASE x.op = "get"  -> s.pr[x.p].st = "idle"
    [] x.op \in {"part", "fail", "kill"} -> s.pr[x.p].st = "dl"
    [] x.op = "clear" -> Active(s, x.d) = {}
    [] OTHER -> TRUE
R(s, r) == [s |-> s, r |-> r]
Apply(s, x, N) ==
  CASE x.op = "get" ->
       IF s.fin[x.d][x.u] # 0 /\ ~x.force THEN R(s, <<"ret", s.fin[x.d][x.u]>>)
       ELSE R([s EXCEPT !.pr[x.p] = [st |-> "dl", d |-> x.d, u |-> x.u, v |-> s.srv[x.u], k |-> 0]], <<"dl", s.srv[x.u]>>)
    [] x.op = "part" ->
       LET q == s.pr[x.p] IN
       IF q.k + 1 < N THEN R([s EXCEPT !.pr[x.p].k = @ + 1], <<"none", 0>>)
       ELSE R([s EXCEPT !.pr[x.p] = Idle, !.fin[q.d][q.u] = q.v], <<"ret", q.v>>)
    [] x.op = "fail" -> R([s EXCEPT !.pr[x.p] = Idle], <<"exc", 0>>)
    [] x.op = "kill" -> R([s EXCEPT !.pr[x.p] = Idle], <<"none", 0>>)
    [] x.op = "bump" -> R([s EXCEPT !.srv[x.u] = @ + 1], <<"none", 0>>)
    [] x.op = "list" -> R(s, <<"list", Listing(s.fin[x.d])>>)
    [] x.op = "clear" -> R([s EXCEPT !.fin[x.d] = [u \in DOMAIN @ |-> 0]], <<"none", 0>>)

\* recorded history: e.steps (step with observed result e.res[i]); the fold stops at the first mismatch
Bad(e) ==
  LET f == FoldLeftDomain(LAMBDA a, i :
             IF a.bad # "" THEN a
             ELSE IF ~Enabled(a.s, e.steps[i]) THEN [a EXCEPT !.bad = "driver: step not enabled"]
             ELSE LET n == Apply(a.s, e.steps[i], e.N) IN
                  IF e.res[i] = n.r THEN [a EXCEPT !.s = n.s]
                  ELSE [a EXCEPT !.bad = "step " \o e.steps[i].op \o ": " \o ToString(e.res[i]) \o " instead of " \o ToString(n.r)],
           [s |-> InitState(e.P, e.U, e.D), bad |-> ""], e.res) IN
  Fail(f.bad # "", f.bad) \cup Fail(e.extra # 0, "unexpected server contact")
=============================================================================
