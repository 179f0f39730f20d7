------------------------------- MODULE MC_C30 -------------------------------
(* Histories of TensorFlow requests in a changing environment. *)
EXTENDS C30, Json
CONSTANTS Depth, Sel
VARIABLES s, hist, init, h
vars == <<s, hist, init, h>>
Envs == {"unset", "", "0", "1"}
EnvNum(v) == CASE v = "unset" -> 1 [] v = "" -> 2 [] v = "0" -> 3 [] v = "1" -> 4
Pips == {"ok", "noop", "fail"}
Init == \E i \in BOOLEAN, e \in Envs, g \in BOOLEAN, p \in Pips :
          /\ s = Start(i, e, g, p) /\ init = s /\ hist = <<>>
          /\ h = EnvNum(e) + 5 * (IF i THEN 1 ELSE 0) + 11 * (IF g THEN 1 ELSE 0) + 23 * (CASE p = "ok" -> 0 [] p = "noop" -> 1 [] p = "fail" -> 2)
Steps == {[op |-> o, arg |-> b] : o \in {"get", "ensure", "cnn"}, b \in BOOLEAN} \cup {[op |-> "keras"], [op |-> "remove"], [op |-> "add"]}
         \cup {[op |-> "env", v |-> v] : v \in Envs}
Num(x) == CASE x.op = "get" -> 1 [] x.op = "ensure" -> 3 [] x.op = "cnn" -> 5 [] x.op = "keras" -> 7 [] x.op = "remove" -> 8 [] x.op = "add" -> 9 [] x.op = "env" -> 9 + EnvNum(x.v)
Next == Len(hist) < Depth /\ \E x \in Steps :
          LET r == Do(s, x)
              n == Num(x) + (IF "arg" \in DOMAIN x THEN (IF x.arg THEN 1 ELSE 0) ELSE 0)
          IN /\ s' = r.s /\ hist' = Append(hist, [x |-> x, out |-> r.out, exc |-> r.exc, pips |-> r.pips])
             /\ UNCHANGED init /\ h' = (h * 17 + n) % 10007
Spec == Init /\ [][Next]_vars
\* nothing is installed unless the request or the environment allows it at that time, and only if the module is missing
OptIn == [][\A x \in Steps : (hist' = Append(hist, [x |-> x, out |-> Do(s, x).out, exc |-> Do(s, x).exc, pips |-> Do(s, x).pips]))
              => (Do(s, x).pips # <<>> => ~s.inst /\ ((x.op # "keras" /\ x.arg) \/ s.env = "1"))]_vars
\* once held, the module stays, and nothing is installed on behalf of get
Held == [][s.held > 0 => s'.held = s.held]_vars
HeldQuiet == \A i \in DOMAIN hist : \A j \in DOMAIN hist :
   (i < j /\ hist[i].x.op \in {"get", "cnn", "keras"} /\ hist[i].exc = "" /\ hist[j].x.op \in {"get", "cnn", "keras"})
   => (hist[j].out = hist[i].out /\ hist[j].pips = <<>> /\ hist[j].exc = "")
AtMostOnce == \A i \in DOMAIN hist : Len(hist[i].pips) <= 1
Emit == IF hist # <<>> /\ hist[Len(hist)].x.op \in {"get", "ensure", "cnn", "keras"} /\ (Len(hist) = 1 \/ h % Sel = 0)
        THEN PrintT("@@" \o ToJson([k |-> "lazy", inst |-> init.inst, env |-> init.env, gpu |-> init.gpu, pip |-> init.pip, steps |-> hist])) ELSE TRUE
=============================================================================
