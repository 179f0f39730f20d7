------------------------------- MODULE MC_C19 -------------------------------
EXTENDS C19, Json
CONSTANTS MaxLinks, Keep
VARIABLES file, out
vars == <<file, out>>
\* names whose order in the file differs from the order of writing
LinkNames == <<"lb", "la", "lc">>
ChNames == <<"channel_2", "channel_1">>
TimeSets == {{1}, {2, 3}, {1, 2, 3}}
\* position coded levels, one missing
Code(l, c, t, k) == IF (l + c + t + k) % 7 = 0 THEN NaN ELSE 1000 * l + 100 * c + 10 * t + k
Chan(l, c, T, f) == LET q == SetToSortSeq(T, <) IN
  [name |-> ChNames[c], f |-> f, pol |-> IF f = 18 THEN "V" ELSE "H", s |-> [i \in DOMAIN q |-> <<q[i], Code(l, c, q[i], 0), Code(l, c, q[i], 1)>>]]
Init == file = <<>> /\ out = <<>>
AddLink == /\ Len(file) < MaxLinks
           /\ \E T \in TimeSets, f \in {18, 23} :
                LET l == Len(file) + 1 IN
                file' = Append(file, [id |-> LinkNames[l], coord |-> <<10 * l, 10 * l + 1, 10 * l + 2, 10 * l + 3>>, ch |-> <<Chan(l, 1, T, f)>>])
AddChannel == /\ file # <<>> /\ Len(file[Len(file)].ch) < 2
              /\ \E T \in TimeSets, f \in {18, 23} : file' = [file EXCEPT ![Len(file)].ch = Append(@, Chan(Len(file), 2, T, f))]
Next == (AddLink \/ AddChannel) /\ out' = [i \in DOMAIN file' |-> Read(file'[i])]
Spec == Init /\ [][Next]_vars
(* ---- the property ---- *)
OnePerLink == Len(out) = Len(file) /\ \A i \in DOMAIN file : out[i].id = file[i].id
AllSamples == \A i \in DOMAIN file : \A c \in DOMAIN file[i].ch : \A k \in DOMAIN file[i].ch[c].s :
   LET s == file[i].ch[c].s[k] IN \E j \in DOMAIN out[i].times : out[i].times[j] = s[1] /\ out[i].ch[c].tsl[j] = s[2] /\ out[i].ch[c].rsl[j] = s[3]
NothingElse == \A i \in DOMAIN out : \A c \in DOMAIN out[i].ch :
   Cardinality({j \in DOMAIN out[i].times : out[i].ch[c].rsl[j] # NaN \/ out[i].ch[c].tsl[j] # NaN}) <= Len(file[i].ch[c].s)
\* adding a link leaves what is read for the others unchanged
Independent == [][\A i \in 1..(Len(file) - 1) : out'[i] = out[i]]_vars
Hash == FoldLeft(LAMBDA a, L : (a * 7 + FoldLeft(LAMBDA b, ch : (b * 5 + Len(ch.s) + ch.f + ch.s[1][1]) % 1009, 3, L.ch)) % 10007, 1, file)
Emit == file = <<>> \/ (Len(file) > 1 /\ Hash % Keep # 0) \/ PrintT("@@" \o ToJson([file |-> file, out |-> out]))
=============================================================================
