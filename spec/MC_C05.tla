------------------------------- MODULE MC_C05 -------------------------------
EXTENDS C05, Json
CONSTANTS Fs, Mode
VARIABLES t, fs, ps, done
vars == <<t, fs, ps, done>>
AllPols == Spell.H \cup Spell.V
BadPols == {"x", "hv", "VERTICAL", ""}
AllF == {F2005[i] : i \in DOMAIN F2005} \cup {F2003[i] : i \in DOMAIN F2003}
\* Mode "single": every node with every spelling;  "multi": short arrays over a few classes, with errors
Init == /\ t \in (IF Mode = "single" THEN Approx ELSE Approx \cup {"ITU", "ITU_2004"}) /\ fs = <<>> /\ ps = <<>> /\ done = FALSE
FSet == IF Mode = "single" THEN {Freqs(t)[i] : i \in DOMAIN Freqs(t)} ELSE Fs
PSet == IF Mode = "single" THEN AllPols ELSE {"h", "V", "vertical", "Horizontal", "x"}
Next == /\ ~done
        /\ \/ /\ Len(fs) < (IF Mode = "single" THEN 1 ELSE 2)
              /\ \E f \in FSet, p \in PSet : fs' = Append(fs, f) /\ ps' = Append(ps, p)
              /\ done' = (Mode = "single")
           \/ Mode = "multi" /\ fs # <<>> /\ done' = TRUE /\ UNCHANGED <<fs, ps>>
           \/ Mode = "multi" /\ fs # <<>> /\ ps' = Append(ps, "V") /\ done' = TRUE /\ UNCHANGED fs  \* shape mismatch
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
ok == CallOK(fs, ps, t)
val(c) == IF ok THEN [i \in DOMAIN fs |-> Lookup(t, fs[i], ps[i], c)] ELSE <<>>
(* ---- properties of the tables and of the lookup ---- *)
Increasing == \A i \in 1..(Len(Freqs("ITU_2005")) - 1) : F2005[i] < F2005[i+1]
Positive == done => \A c \in {"a", "b"} : \A i \in DOMAIN val(c) : val(c)[i] > 0
Complete == /\ \A p \in {"H", "V"}, c \in {"a", "b"}, a \in Approx : Len(Tab(a, p, c)) = Len(Freqs(a))
            /\ F2005[1] = 2 /\ F2003[1] = 2 /\ F2005[Len(F2005)] = 200 /\ F2003[Len(F2003)] = 200
Spellings == \A p \in Spell.H, q \in Spell.V : PolOf(p) = "H" /\ PolOf(q) = "V"
Emit == ~done \/ PrintT("@@" \o ToJson([t |-> t, f |-> fs, p |-> ps, ok |-> ok, a |-> val("a"), b |-> val("b")]))
=============================================================================
