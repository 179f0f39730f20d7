-------------------------------- MODULE C08 --------------------------------
(***************************************************************************)
(* Calling the functions that work along time.  A call is a number of       *)
(* positional arguments and a set of keyword arguments; binding follows the *)
(* signature.  The result of a bound call on labelled arrays is, for every  *)
(* label, the result of the call with the series of that label.             *)
(***************************************************************************)
EXTENDS Common

P(n) == [n |-> n, opt |-> FALSE]
O(n) == [n |-> n, opt |-> TRUE]
KR == <<P("A"), P("L_km"), O("f_GHz"), O("pol"), O("a"), O("b"), O("a_b_approximation"), O("R_min")>>
NR == <<P("pref"), P("p_c_min"), P("p_c_max"), P("F"), P("length"), O("f_GHz"), O("pol"), O("a"), O("b"),
        O("a_b_approximation"), O("waa_max"), O("alpha"), O("F_value_threshold")>>
\* function name / variant -> signature and further names that must be given
Fns == [baseline_constant |-> [sig |-> <<P("trsl"), P("wet"), O("n_average_last_dry")>>, need |-> {}],
        waa_schleiss_2013 |-> [sig |-> <<P("rsl"), P("baseline"), P("wet"), P("waa_max"), P("delta_t"), P("tau")>>, need |-> {}],
        waa_leijnse_2008_from_A_obs |-> [sig |-> <<P("A_obs"), P("f_Hz"), P("pol"), P("L_km"), O("T_K"), O("gamma"), O("delta"),
                                                   O("n_antenna"), O("l_antenna")>>, need |-> {}],
        waa_pastorek_2021_from_A_obs |-> [sig |-> <<P("A_obs"), P("f_Hz"), P("pol"), P("L_km"), O("A_max"), O("zeta"), O("d")>>, need |-> {}],
        get_blackout_start_and_end |-> [sig |-> <<P("rsl"), P("rsl_threshold")>>, need |-> {}],
        calc_R_from_A |-> [sig |-> KR, need |-> {"f_GHz", "pol"}],
        calc_R_from_A_ab |-> [sig |-> KR, need |-> {"a", "b"}],
        nearby_rainfall_retrival |-> [sig |-> NR, need |-> {"f_GHz", "pol"}],
        nearby_rainfall_retrival_ab |-> [sig |-> NR, need |-> {"a", "b"}]]

Names(f) == {Fns[f].sig[i].n : i \in DOMAIN Fns[f].sig}
Required(f) == {Fns[f].sig[i].n : i \in {j \in DOMAIN Fns[f].sig : ~Fns[f].sig[j].opt}} \cup Fns[f].need
Positional(f, np) == {Fns[f].sig[i].n : i \in 1..MinOf(np, Len(Fns[f].sig))}

Surplus(f, np)      == np > Len(Fns[f].sig)
Unknown(f, kw)      == kw \ Names(f) # {}
Duplicate(f, np, kw) == kw \cap Positional(f, np) # {}
Missing(f, np, kw)  == Required(f) \ (Positional(f, np) \cup kw) # {}
Accepted(f, np, kw) == ~Surplus(f, np) /\ ~Unknown(f, kw) /\ ~Duplicate(f, np, kw) /\ ~Missing(f, np, kw)
\* names given explicitly; all others have their default
Given(f, np, kw) == Positional(f, np) \cup kw

\* what may happen: labels in different order among the arguments are matched by label or the call is rejected,
\* never combined by position
Outcomes(f, np, kw, sh) ==
  IF ~Accepted(f, np, kw) THEN {"rejected"} ELSE IF sh = "none" THEN {"by label"} ELSE {"by label", "rejected"}

(* recorded calls on labelled arrays: got and want are keyed lists of series *)
Bad(e) ==
  IF e.exc # "" THEN Fail("rejected" \notin Outcomes(e.f, e.np, {e.kw[i] : i \in DOMAIN e.kw}, e.sh), "raised")
  ELSE Fail(~e.labels, "labels")
    \cup Fail(Len(e.got) # Len(e.want), "number of series")
    \cup (IF Len(e.got) # Len(e.want) THEN {} ELSE
          Fail(\E i \in DOMAIN e.got : e.got[i] # e.want[i], "differs from processing the series alone"))
=============================================================================
