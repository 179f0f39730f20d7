------------------------------ MODULE MC_C20I ------------------------------
(* Implementation level of the cache: one file system operation or one event of the transfer per    *)
(* step, every process can be killed between any two of them.                                       *)
(*   file[d][u]  content of the file at the cached path: 0 none, otherwise <<version, parts>>       *)
(*   pc[p]: idle, checked (the path did not exist or force), open (temporary file), full (all parts  *)
(*   received), replaced (os.replace done, call not returned)                                       *)
(* With Direct the download is written to the cached path itself (how the code was): refuted.        *)
EXTENDS C20
CONSTANTS P, U, D, N, MaxVer, Direct
VARIABLES srv, file, pr, ret
vars == <<srv, file, pr, ret>>
Nil == <<0, 0>>
I == [pc |-> "idle", d |-> 0, u |-> 0, v |-> 0, k |-> 0, tmp |-> FALSE]
Init == /\ srv = [u \in 1..U |-> 1] /\ file = [d \in 1..D |-> [u \in 1..U |-> Nil]]
        /\ pr = [p \in 1..P |-> I] /\ ret = <<0, Nil>>
Call(p, d, u, f) ==
  /\ pr[p].pc = "idle"
  /\ IF file[d][u] # Nil /\ ~f THEN ret' = <<u, file[d][u]>> /\ UNCHANGED <<srv, file, pr>>
     ELSE /\ pr' = [pr EXCEPT ![p] = [I EXCEPT !.pc = "checked", !.d = d, !.u = u]]
          /\ ret' = <<0, Nil>> /\ UNCHANGED <<srv, file>>
Contact(p) ==
  /\ pr[p].pc = "checked"
  /\ pr' = [pr EXCEPT ![p].pc = "open", ![p].v = srv[pr[p].u], ![p].tmp = TRUE]
  /\ file' = IF Direct THEN [file EXCEPT ![pr[p].d][pr[p].u] = <<srv[pr[p].u], 0>>] ELSE file
  /\ ret' = <<0, Nil>> /\ UNCHANGED srv
Part(p) ==
  /\ pr[p].pc = "open" /\ pr[p].k < N
  /\ pr' = [pr EXCEPT ![p].k = @ + 1, ![p].pc = IF pr[p].k + 1 = N THEN "full" ELSE "open"]
  /\ file' = IF Direct THEN [file EXCEPT ![pr[p].d][pr[p].u] = <<pr[p].v, pr[p].k + 1>>] ELSE file
  /\ ret' = <<0, Nil>> /\ UNCHANGED srv
Replace(p) ==
  /\ pr[p].pc = "full"
  /\ file' = IF Direct THEN file ELSE [file EXCEPT ![pr[p].d][pr[p].u] = <<pr[p].v, pr[p].k>>]
  /\ pr' = [pr EXCEPT ![p].pc = "replaced", ![p].tmp = FALSE] /\ ret' = <<0, Nil>> /\ UNCHANGED srv
\* between replace and return another process may have replaced the file by another complete one
Return(p) ==
  /\ pr[p].pc = "replaced"
  /\ ret' = <<pr[p].u, file[pr[p].d][pr[p].u]>> /\ pr' = [pr EXCEPT ![p] = I] /\ UNCHANGED <<srv, file>>
\* error of the transfer (before, during) and kill
Stop(p) == pr[p].pc # "idle" /\ pr' = [pr EXCEPT ![p] = I] /\ ret' = <<0, Nil>> /\ UNCHANGED <<srv, file>>
Bump(u) == srv[u] < MaxVer /\ srv' = [srv EXCEPT ![u] = @ + 1] /\ ret' = <<0, Nil>> /\ UNCHANGED <<file, pr>>
Clear(d) == /\ \A p \in 1..P : pr[p].pc = "idle" \/ pr[p].d # d
            /\ file' = [file EXCEPT ![d] = [u \in 1..U |-> Nil]] /\ ret' = <<0, Nil>> /\ UNCHANGED <<srv, pr>>
Next == \/ \E p \in 1..P : Contact(p) \/ Part(p) \/ Replace(p) \/ Return(p) \/ Stop(p)
        \/ \E p \in 1..P, d \in 1..D, u \in 1..U, f \in BOOLEAN : Call(p, d, u, f)
        \/ \E u \in 1..U : Bump(u) \/ \E d \in 1..D : Clear(d)
Spec == Init /\ [][Next]_vars
CompleteFiles == \A d \in 1..D, u \in 1..U : file[d][u] # Nil => file[d][u][2] = N /\ file[d][u][1] \in 1..srv[u]
CompleteReturned == ret[1] # 0 => ret[2][2] = N /\ ret[2][1] \in 1..srv[ret[1]]
(* refinement: the call takes effect at the contact (the file was absent or the download forced when it was checked), *)
(* the download at the replace                                                                                        *)
AbsS == [srv |-> srv,
        fin |-> [d \in 1..D |-> [u \in 1..U |-> file[d][u][1]]],
        pr |-> [p \in 1..P |-> IF pr[p].pc \in {"open", "full"} THEN [st |-> "dl", d |-> pr[p].d, u |-> pr[p].u, v |-> pr[p].v, k |-> IF pr[p].k < N THEN pr[p].k ELSE N - 1] ELSE Idle]]
ASteps == [op : {"get"}, p : 1..P, d : 1..D, u : 1..U, force : {TRUE}]
    \cup [op : {"part", "kill"}, p : 1..P] \cup [op : {"bump"}, u : 1..U] \cup [op : {"clear"}, d : 1..D]
Refines == [][\E x \in ASteps : Enabled(AbsS, x) /\ AbsS' = Apply(AbsS, x, N).s]_AbsS
=============================================================================
