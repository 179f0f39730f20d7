------------------------------- MODULE MC_C13 -------------------------------
EXTENDS C13, Json
CONSTANTS MaxCalls, MaxChanges, Keep
VARIABLES kind, hist, cache, out
vars == <<kind, hist, cache, out>>
Arg == [q : 1..3, z : 1..2, mask : 1..3, st : 1..3, nnear : {2, 3}, p : {0, 2}, maxd : 1..2]
Start == {[q |-> 1, z |-> 1, mask |-> 1, st |-> 1, nnear |-> 2, p |-> 2, maxd |-> 1],
          [q |-> 1, z |-> 1, mask |-> 2, st |-> 1, nnear |-> 3, p |-> 2, maxd |-> 2]}
Fields == {"q", "z", "mask", "st", "nnear", "p", "maxd"}
Changes(a, b) == Cardinality({f \in Fields : a[f] # b[f]})
Options == [q |-> 1..3, z |-> 1..2, mask |-> 1..3, st |-> 1..3, nnear |-> {2, 3}, p |-> {0, 2}, maxd |-> 1..2]
Succ(a) == {[g \in Fields |-> IF g = f THEN v ELSE a[g]] : <<f, v>> \in {fv \in Fields \X (0..3) : fv[2] \in Options[fv[1]]}}
Reach(a) == IF MaxChanges = 1 THEN Succ(a) ELSE UNION {Succ(b) : b \in Succ(a)}
Legal(a) == kind = "tree" => a.st = 1   \* a tree is made for one set of stations

\* what the implementation model remembers of the last evaluation
TreeKey(a) == IF kind = "tree" THEN <<a.st>> ELSE [i \in DOMAIN StOf(a, kind) |-> <<StOf(a, kind)[i][1], StOf(a, kind)[i][2]>>]
NbKey(a) == <<Queries[a.q], a.nnear, MaxD2[a.maxd]>>
NbOf(a) == TLCEval([k \in DOMAIN Queries[a.q] |-> UsedSets(StOf(a, kind), Queries[a.q][k], a.nnear, MaxD2[a.maxd])])
NoCache == [tree |-> "none", nb |-> "none", val |-> <<>>]
Empty(a) == kind = "interp" /\ a.mask = 3
CallWith(a) ==
  IF Empty(a) THEN cache' = cache /\ out' = [k \in DOMAIN Queries[a.q] |-> {Missing}]
  ELSE LET hit == cache.tree = ToString(TreeKey(a)) /\ cache.nb = ToString(NbKey(a))
           nb == TLCEval(IF hit THEN cache.val ELSE NbOf(a)) IN
       /\ cache' = [tree |-> ToString(TreeKey(a)), nb |-> ToString(NbKey(a)), val |-> nb]
       /\ out' = TLCEval([k \in DOMAIN Queries[a.q] |->
             UNION {MeanOf(StOf(a, kind), Queries[a.q][k], U, LAMBDA d : IF a.p = 0 THEN 1 ELSE 3600 \div d) : U \in nb[k]}])
Init == kind \in {"tree", "interp"} /\ hist = <<>> /\ cache = NoCache /\ out = <<>>
Next == /\ Len(hist) < MaxCalls
        /\ \E a \in (IF hist = <<>> THEN Start ELSE Reach(hist[Len(hist)].a)), inplace \in (IF hist = <<>> THEN {FALSE} ELSE BOOLEAN) :
             /\ Legal(a)
             /\ CallWith(a)
             /\ hist' = Append(hist, [a |-> a, inplace |-> inplace, want |-> out'])
        /\ UNCHANGED kind
Spec == Init /\ [][Next]_vars
Fr(a) == IF Empty(a) THEN [k \in DOMAIN Queries[a.q] |-> {Missing}] ELSE Fresh(a, kind)
(* ---- the property ---- *)
SameAsFresh == hist # <<>> => out = Fr(hist[Len(hist)].a)
Hash == FoldLeft(LAMBDA x, h : (x * 31 + h.a.q + 3 * h.a.z + 5 * h.a.mask + 7 * h.a.st + 11 * h.a.nnear + 13 * h.a.p + 17 * h.a.maxd + (IF h.inplace THEN 19 ELSE 0)) % 10007, 7, hist)
Emit == Len(hist) < MaxCalls \/ Hash % Keep # 0
        \/ PrintT("@@" \o ToJson([kind |-> kind, calls |-> [i \in DOMAIN hist |-> [q |-> Queries[hist[i].a.q], z |-> ZOf(hist[i].a), st |-> StationSets[hist[i].a.st], nnear |-> hist[i].a.nnear,
             p |-> hist[i].a.p, maxd2 |-> MaxD2[hist[i].a.maxd], inplace |-> hist[i].inplace, want |-> [k \in DOMAIN hist[i].want |-> SetToSeq(hist[i].want[k])]]]]))
=============================================================================
