-------------------------------- MODULE C30 --------------------------------
(***************************************************************************)
(* Where models come from, and when TensorFlow is installed.                *)
(* Dispatch: a source is a string; whether it is downloaded, taken as local *)
(* file or rejected is decided by the string alone.                         *)
(* TensorFlow: a machine over the environment (module importable or not,    *)
(* variable ALLOW_TF_AUTOINSTALL, GPU, how pip behaves) and the module that  *)
(* the package holds; requests may or may not carry the permission.          *)
(***************************************************************************)
EXTENDS Common

(* ---------------------------------------------------------- dispatch *)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
HasChar(s, c) == \E i \in 1..Len(s) : SubSeq(s, i, i) = c

IsURL(s) == StartsWith(s, "http://") \/ StartsWith(s, "https://")
\* class of a source for get_model and cnn_wd
TorchClass(s) == IF IsURL(s) THEN "download" ELSE IF EndsWith(s, ".pt") \/ HasChar(s, "/") THEN "local" ELSE "reject"
\* class of a source for the TensorFlow model: every string that is no URL is a path
TFClass(s) == IF IsURL(s) THEN "download" ELSE "local"

\* what may be observed.  contact: a connection to the host was made; got: "remote", "file", or "error"
\* secure: the host cannot answer (https), so that a download ends with an error; here: the string names an existing file
TorchOutcome(s, here) ==
  CASE TorchClass(s) = "download" -> [contact |-> TRUE, got |-> IF StartsWith(s, "https://") THEN "error" ELSE "remote"]
    [] TorchClass(s) = "local"    -> [contact |-> FALSE, got |-> IF here THEN "file" ELSE "error"]
    [] OTHER                      -> [contact |-> FALSE, got |-> "error"]
TFOutcome(s) ==
  IF TFClass(s) = "download" THEN [contact |-> TRUE, got |-> IF StartsWith(s, "https://") THEN "error" ELSE "remote"]
  ELSE [contact |-> FALSE, got |-> "path"]
\* two sources (architecture and weights): an error of one is an error of the request
TFPair(s1, s2) ==
  LET o1 == TFOutcome(s1)  o2 == TFOutcome(s2) IN
  [err |-> o1.got = "error" \/ o2.got = "error", contact |-> <<o1.contact, o2.contact>>, got |-> <<o1.got, o2.got>>]
\* if there is an error, the other source may have been asked for or not
PairContact(o, c) == IF o.err THEN (\A i \in 1..2 : c[i] => o.contact[i]) /\ (\E i \in 1..2 : c[i] /\ o.got[i] = "error") ELSE c = o.contact

(* -------------------------------------------------------- TensorFlow *)
\* s: [inst (importable), gen (number of the installation), held (generation of the module held, 0 none), env, gpu, pip]
\* pip: "ok" makes the module importable, "noop" ends without effect, "fail" ends with an error
Start(inst, env, gpu, pip) == [inst |-> inst, gen |-> IF inst THEN 1 ELSE 0, held |-> 0, env |-> env, gpu |-> gpu, pip |-> pip]
Package(s) == IF s.gpu THEN "tensorflow[and-cuda]" ELSE "tensorflow"
Allowed(s, arg) == arg \/ s.env = "1"

\* result of looking for the module: [s, out (generation or 0), exc, pips (packages given to pip)]
Ensure(s, arg) ==
  IF s.inst THEN [s |-> s, out |-> s.gen, exc |-> "", pips |-> <<>>]
  ELSE IF ~Allowed(s, arg) THEN [s |-> s, out |-> 0, exc |-> "ImportError", pips |-> <<>>]
  ELSE IF s.pip = "ok" THEN [s |-> [s EXCEPT !.inst = TRUE, !.gen = @ + 1], out |-> s.gen + 1, exc |-> "", pips |-> <<Package(s)>>]
  ELSE [s |-> s, out |-> 0, exc |-> IF s.pip = "noop" THEN "ImportError" ELSE "pip", pips |-> <<Package(s)>>]
Get(s, arg) ==
  IF s.held > 0 THEN [s |-> s, out |-> s.held, exc |-> "", pips |-> <<>>]
  ELSE LET r == Ensure(s, arg) IN [r EXCEPT !.s.held = r.out]

\* one step x: [op, arg] of a history
Do(s, x) ==
  CASE x.op = "ensure" -> Ensure(s, x.arg)
    [] x.op \in {"get", "cnn"} -> Get(s, x.arg)
    [] x.op = "keras" -> Get(s, FALSE)
    [] x.op = "env" -> [s |-> [s EXCEPT !.env = x.v], out |-> 0, exc |-> "", pips |-> <<>>]
    [] x.op = "remove" -> [s |-> [s EXCEPT !.inst = FALSE], out |-> 0, exc |-> "", pips |-> <<>>]
    [] x.op = "add" -> [s |-> IF s.inst THEN s ELSE [s EXCEPT !.inst = TRUE, !.gen = @ + 1], out |-> 0, exc |-> "", pips |-> <<>>]

(* ------------------------------------------------ recorded executions *)
Bad(e) ==
  CASE e.k = "torch" ->
         LET o == TorchOutcome(e.s, e.here) IN
         Fail(e.contact # o.contact, IF e.contact THEN "downloaded although no URL" ELSE "URL not downloaded")
         \cup Fail(e.got # o.got, "source " \o TorchClass(e.s) \o " gave " \o e.got)
         \cup Fail(e.got = "remote" /\ ~e.asked, "another URL requested")
    [] e.k = "tf" ->
         LET o == TFPair(e.s1, e.s2) IN
         Fail(~PairContact(o, e.contact), "downloads of the sources") \cup Fail(e.err # o.err \/ (~o.err /\ e.got # o.got), "paths of the sources")
         \cup Fail(~e.asked, "another URL requested")
    [] e.k = "lazy" ->
         FoldLeft(LAMBDA a, x :
             LET r == Do(a.s, x) IN
             [s |-> r.s, bad |-> a.bad \cup Fail(x.pips # r.pips, IF r.pips = <<>> THEN "installed without permission or need" ELSE "installation")
                                 \cup Fail(x.exc # r.exc, "error of " \o x.op) \cup Fail(x.exc = "" /\ r.exc = "" /\ x.out # r.out, "module of " \o x.op)],
           [s |-> Start(e.inst, e.env, e.gpu, e.pip), bad |-> {}], e.steps).bad
=============================================================================
