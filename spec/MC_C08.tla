------------------------------- MODULE MC_C08 -------------------------------
EXTENDS C08, Json
CONSTANTS MaxAdd, MaxDrop
VARIABLES f, np, kw, done, sh
vars == <<f, np, kw, done, sh>>
\* start from the plainest call with np positional arguments, everything else by keyword,
\* then drop and add keywords
Init == /\ f \in DOMAIN Fns /\ np \in 0..(Len(Fns[f].sig) + 1)
        /\ kw = Required(f) \ Positional(f, np) /\ done = <<0, 0>> /\ sh = "none"
Drop == /\ done[1] < MaxDrop /\ done[2] = 0 /\ \E n \in kw : kw' = kw \ {n}
        /\ done' = <<done[1] + 1, 0>> /\ UNCHANGED <<f, np, sh>>
Add == /\ done[2] < MaxAdd /\ \E n \in (Names(f) \cup {"bogus"}) \ kw : kw' = kw \cup {n}
       /\ done' = <<done[1], done[2] + 1>> /\ UNCHANGED <<f, np, sh>>
\* one of the labelled arguments has its labels in another order
Shuffle == /\ done[1] = 0 /\ Accepted(f, np, kw) /\ sh' \in {"cml_id", "time"} /\ UNCHANGED <<f, np, kw, done>>
Next == sh = "none" /\ (Drop \/ Add \/ Shuffle)
Spec == Init /\ [][Next]_vars
ok == Accepted(f, np, kw)
(* ---- the property ---- *)
NeverMixed == Outcomes(f, np, kw, sh) \subseteq {"by label", "rejected"} /\ Outcomes(f, np, kw, sh) # {}
\* an accepted call binds every parameter at most once and every required one exactly once
BoundOnce == ok => \A i \in DOMAIN Fns[f].sig :
   LET n == Fns[f].sig[i].n IN ~(i <= np /\ n \in kw) /\ (n \in Required(f) => i <= np \/ n \in kw)
NothingIgnored == ok => Cardinality(Given(f, np, kw)) = np + Cardinality(kw)
\* moving an argument from keyword to position does not change what is given
SplitIrrelevant == ok /\ np < Len(Fns[f].sig) /\ Fns[f].sig[np + 1].n \in kw =>
   LET n == Fns[f].sig[np + 1].n IN
   Accepted(f, np + 1, kw \ {n}) /\ Given(f, np + 1, kw \ {n}) = Given(f, np, kw)
Emit == PrintT("@@" \o ToJson([f |-> f, np |-> np, kw |-> SetToSeq(kw), ok |-> ok, sh |-> sh, out |-> SetToSeq(Outcomes(f, np, kw, sh))]))
=============================================================================
