------------------------------ MODULE MC_C30D ------------------------------
(* Source strings: all combinations of scheme, folder, name and suffix. *)
EXTENDS C30, Json
CONSTANTS Sel
VARIABLES src, src2, lib, here
vars == <<src, src2, lib, here>>
Schemes == {"", "http://HOST/", "https://HOST/", "HTTP://HOST/", "ftp://HOST/", "httpx://HOST/", "http:/HOST/", "file://", "xhttp://HOST/", "./http://HOST/", "http", "https"}
Folders == {"", "d/", "d/http://", "a.pt/"}
Names == {"m", ".", "model.pt.x", "http:", "https:", "m.json"}
Endings == {".pt", ".pth", ".pt2", "", ".PT", ".pt.zip", ".h5"}
Null == "-"
Init == src = Null /\ src2 = Null /\ lib = "torch" /\ here = FALSE
Strings == {a \o b \o c \o d : a \in Schemes, b \in Folders, c \in Names, d \in Endings}
HashS(s) == (7 * Len(s) + 3 * Cardinality({i \in 1..Len(s) : SubSeq(s, i, i) = "/"}) + Cardinality({i \in 1..Len(s) : SubSeq(s, i, i) = "p"}) * 11
             + Cardinality({i \in 1..Len(s) : SubSeq(s, i, i) = "t"}) * 5)
Pick == /\ src = Null
        /\ \E s \in Strings : \E l \in {"torch", "tf"}, f \in BOOLEAN :
             /\ src' = s /\ lib' = l /\ here' = f
             /\ IF l = "tf" THEN \E q \in {"http://HOST/w.h5", "https://HOST/w.h5", "d/w.h5", "w.h5"} : (HashS(s) + Len(q)) % Sel = 0 /\ src2' = q ELSE src2' = Null
Spec == Init /\ [][Pick]_vars
\* classes are exclusive, and a download happens exactly for URLs
Exclusive == src # Null => (TorchClass(src) = "download" <=> IsURL(src)) /\ (TorchOutcome(src, here).contact <=> IsURL(src))
Refused == (src # Null /\ TorchClass(src) = "reject") => TorchOutcome(src, here).got = "error"
Emit == IF src = Null THEN TRUE
        ELSE IF lib = "torch" THEN PrintT("@@" \o ToJson([k |-> "torch", s |-> src, here |-> here, o |-> TorchOutcome(src, here)]))
        ELSE PrintT("@@" \o ToJson([k |-> "tf", s1 |-> src, s2 |-> src2, o |-> TFPair(src, src2)]))
=============================================================================
