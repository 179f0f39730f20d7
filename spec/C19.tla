-------------------------------- MODULE C19 --------------------------------
(***************************************************************************)
(* A CML file: a sequence of links, each with a sequence of channels, each  *)
(* with a sequence of samples <<time, tx, rx>> (times increasing) and its   *)
(* frequency and polarization.  Reading it yields for every link a table    *)
(* over all times of its channels.                                          *)
(***************************************************************************)
EXTENDS Common
TimesOf(link) == UNION {{ch.s[i][1] : i \in DOMAIN ch.s} : ch \in Range(link.ch)}
\* value of column k (2: tx, 3: rx) of a channel at time t
At(ch, t, k) == IF \E i \in DOMAIN ch.s : ch.s[i][1] = t THEN ch.s[CHOOSE i \in DOMAIN ch.s : ch.s[i][1] = t][k] ELSE NaN
Read(link) ==
  LET ts == SetToSortSeq(TimesOf(link), <) IN
  [id |-> link.id, coord |-> link.coord, times |-> ts,
   ch |-> [c \in DOMAIN link.ch |-> [name |-> link.ch[c].name, f |-> link.ch[c].f, pol |-> link.ch[c].pol,
             tsl |-> [k \in DOMAIN ts |-> At(link.ch[c], ts[k], 2)], rsl |-> [k \in DOMAIN ts |-> At(link.ch[c], ts[k], 3)]]]]
SameSet(a, b) == Range(a) = Range(b) /\ Len(a) = Len(b)
\* e.file: what was written, e.got: what was read (same record structure), e.len/e.wantlen: lengths
Bad(e) ==
  IF e.exc # "" THEN {"raised"}
  ELSE Fail(Len(e.got) # Len(e.file), "number of links")
    \cup UNION { LET L == e.file[i]  G == {j \in DOMAIN e.got : e.got[j].id = L.id} IN
       IF Cardinality(G) # 1 THEN {"link missing or repeated"}
       ELSE LET g == e.got[CHOOSE j \in G : TRUE]  r == Read(L) IN
         Fail(g.coord # r.coord, "coordinates") \cup Fail(g.times # r.times, "times")
         \cup Fail(~Near(g.len, L.len, 2), "length")
         \cup Fail(~SameSet([k \in DOMAIN g.ch |-> g.ch[k].name], [k \in DOMAIN r.ch |-> r.ch[k].name]), "channels")
         \cup UNION { LET H == {k \in DOMAIN g.ch : g.ch[k].name = r.ch[c].name} IN
              IF H = {} THEN {} ELSE LET h == g.ch[CHOOSE k \in H : TRUE] IN
              Fail(h.f # r.ch[c].f, "frequency") \cup Fail(h.pol # r.ch[c].pol, "polarization")
              \cup Fail(h.tsl # r.ch[c].tsl, "transmitted levels") \cup Fail(h.rsl # r.ch[c].rsl, "received levels")
              : c \in DOMAIN r.ch }
       : i \in DOMAIN e.file }
=============================================================================
