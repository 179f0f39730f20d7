-------------------------------- MODULE C28 --------------------------------
(***************************************************************************)
(* Agreement of executions of the compiled kernels.  The product machine    *)
(* feeds one stream of samples (signal, flag) to all kernels; an execution  *)
(* is identified by its mode (compiled or interpreted) and the types of its *)
(* arguments, and all executions on the same input must agree.              *)
(***************************************************************************)
EXTENDS Common
BC == INSTANCE C01
BL == INSTANCE C02
BG == INSTANCE C03
WA == INSTANCE C06
\* state of the product machine: the four kernels, reading sample x with flag w
Prod0(n, x, w) ==
  [n |-> n, xs |-> <<x>>, ws |-> <<w>>,
   bc |-> BC!Step(BC!Init0(n), x, w), bco |-> <<BC!StepOut(BC!Init0(n), x, w)>>,
   bl |-> BL!Start(x), wa |-> <<0>>]
ProdStep(s, x, w, wmax) ==
  LET b == BC!StepOut(s.bc, x, w) IN
  [s EXCEPT !.xs = Append(@, x), !.ws = Append(@, w), !.bc = BC!Step(s.bc, x, w), !.bco = Append(@, b),
            !.bl = BL!Step(s.bl, x, w, FALSE),
            !.wa = Append(@, WA!Next1(s.wa[Len(s.wa)], WA!Att(x, 0), w, wmax, 1, 2))]
MaskOf(xs, thr) ==
  LET gs == [i \in DOMAIN xs |-> BG!IsStart(xs, thr, i)]  ge == [i \in DOMAIN xs |-> BG!IsEnd(xs, thr, i)] IN
  [gs |-> gs, ge |-> ge,
   m |-> FoldLeftDomain(LAMBDA a, i : LET in == BG!InGap(a.in, xs[i], gs[i], ge[i]) IN
           [in |-> in, m |-> Append(a.m, BG!MaskOf(in, xs[i], gs[i], ge[i]))], [in |-> FALSE, m |-> <<>>], xs).m]

\* e.runs: executions with the scaled result (out) or the exception (exc) of each
SameOut(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], 2)
Bad(e) ==
  UNION {Fail(e.runs[i].exc # e.runs[1].exc, e.runs[i].name \o " raises, " \o e.runs[1].name \o " does not, or the other way round")
         \cup Fail(e.runs[i].exc = "" /\ e.runs[1].exc = "" /\ ~SameOut(e.runs[i].out, e.runs[1].out), e.runs[i].name \o " differs from " \o e.runs[1].name)
         : i \in DOMAIN e.runs}
=============================================================================
