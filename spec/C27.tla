-------------------------------- MODULE C27 --------------------------------
(***************************************************************************)
(* Functions of the package as pure functions of the contents of argument   *)
(* objects that the user owns.  The objects are shared between calls.  The   *)
(* user may call any function, edit an object in place (it then has its      *)
(* other content), or edit a returned result in place.  Calls do not change  *)
(* any object, and the result of a call is determined by the function and    *)
(* the current contents of its objects: nothing that happened before counts. *)
(***************************************************************************)
EXTENDS Common

\* the functions (with the form they are called in) and the objects they are given; objects
\* named function.parameter are scalar parameters, which the user changes from call to call
CallSeq == <<
  <<"baseline_constant",   <<"rsl", "wet", "baseline_constant.n_average_last_dry">>>>,
  <<"baseline_constant_1", <<"rsl", "wet">>>>,
  <<"baseline_linear",     <<"rsl", "wet">>>>,
  <<"baseline_linear_nan", <<"rsl", "wet">>>>,
  <<"waa_schleiss",        <<"rsl", "base", "wet", "waa_schleiss.waa_max", "waa_schleiss.delta_t", "waa_schleiss.tau">>>>,
  <<"blackout_markers",    <<"rsl", "blackout_markers.rsl_threshold">>>>,
  <<"blackout_mask",       <<"rsl", "gs", "ge">>>>,
  <<"waa_leijnse_A",       <<"A0", "freq", "pol", "len", "waa_leijnse_A.T_K", "waa_leijnse_A.gamma", "waa_leijnse_A.delta",
                             "waa_leijnse_A.n_antenna", "waa_leijnse_A.l_antenna">>>>,
  <<"waa_pastorek_A",      <<"A0", "freq", "pol", "len", "waa_pastorek_A.A_max", "waa_pastorek_A.zeta", "waa_pastorek_A.d">>>>,
  <<"calc_R",              <<"A", "freq", "pol", "len", "calc_R.R_min", "calc_R.a_b_approximation">>>>,
  <<"calc_R_2003",         <<"A", "freq", "pol", "len">>>>,
  <<"calc_R_ab",           <<"A", "len", "calc_R_ab.a", "calc_R_ab.b">>>>,
  <<"calc_R_min_max",      <<"Amm", "calc_R_min_max.L", "calc_R_min_max.a", "calc_R_min_max.b", "calc_R_min_max.R_min",
                             "calc_R_min_max.k">>>>,
  <<"a_b",                 <<"fs", "ps", "a_b.approx_type">>>>,
  <<"a_b_2003",            <<"fs", "ps">>>>,
  <<"waa_leijnse",         <<"R1", "waa_leijnse.f_Hz", "waa_leijnse.T_K", "waa_leijnse.gamma", "waa_leijnse.delta",
                             "waa_leijnse.n_antenna", "waa_leijnse.l_antenna">>>>,
  <<"waa_pastorek",        <<"R1", "waa_pastorek.A_max", "waa_pastorek.zeta", "waa_pastorek.d">>>>,
  <<"eps_water",           <<"fs", "eps_water.T_K">>>>,
  <<"A_min_max",           <<"mm", "A_min_max.gT", "A_min_max.gR", "A_min_max.window">>>>,
  <<"cml_distances",       <<"sites">>>>,
  <<"haversine",           <<"sites">>>>,
  <<"nearby_wetdry",       <<"pmin", "dists", "nearby_wetdry.radius", "nearby_wetdry.thresh_median_P",
                             "nearby_wetdry.thresh_median_PL", "nearby_wetdry.min_links", "nearby_wetdry.interval",
                             "nearby_wetdry.timeperiod", "nearby_wetdry.min_hours">>>>,
  <<"nearby_ref",          <<"pmin", "pmax", "nwet", "nearby_ref.n_average_dry", "nearby_ref.min_periods">>>>,
  <<"nearby_correct",      <<"pmin", "pmax", "nwet", "pref">>>>,
  <<"nearby_rain",         <<"pmin", "pmax", "pref", "F", "nearby_rain.length", "nearby_rain.a", "nearby_rain.b",
                             "nearby_rain.waa_max", "nearby_rain.alpha", "nearby_rain.F_value_threshold">>>>,
  <<"mlp_rad_online",      <<"trsl", "mlp_rad_online.model_sel">>>>,
  <<"mlp_rg",              <<"trsl">>>>,
  <<"stft",                <<"sig", "stft.window_length", "stft.threshold", "stft.f_divide", "stft.t_dry_start",
                             "stft.t_dry_stop", "stft.f_sampling">>>>,
  <<"stft_mirror",         <<"sig">>>>,
  <<"stft_given",          <<"sig", "spec">>>>,
  <<"lowest_std",          <<"sig", "lowest_std.window_length">>>>,
  <<"torch_windows",       <<"tl", "torch_windows.window_size", "torch_windows.reflength">>>>,
  <<"torch_inference",     <<"tl", "model", "torch_inference.batch_size", "torch_inference.reflength">>>>,
  <<"torch_redistribute",  <<"tlds", "tres">>>>,
  <<"tf_samples",          <<"cds", "tf_samples.seq_len">>>>,
  <<"tf_scale",            <<"seqs">>>>,
  <<"tf_store",            <<"cds", "tfres">>>>,
  <<"idw",                 <<"xy", "z", "grid">>>>,
  <<"idw_nan",             <<"xy", "z", "grid">>>>,
  <<"idw_res",             <<"xy", "z">>>>,
  <<"kriging",             <<"xy", "z", "grid", "vario">>>>,
  <<"kriging_default",     <<"xy", "z", "grid">>>>,
  <<"invdisttree",         <<"q", "zi", "invdisttree.nnear", "invdisttree.p", "invdisttree.max_distance">>>>,
  <<"clim_var",            <<"clim_var.date_str", "clim_var.time_scale_hours">>>>,
  <<"coverage",            <<"links", "grid", "coverage.max_dist_from_cml">>>>,
  <<"aggregate",           <<"df", "newix", "aggregate.label">>>>,
  <<"aggregate_left",      <<"df", "newix">>>>,
  <<"wet_dry_metrics",     <<"wref", "wpred">>>>,
  <<"rain_metrics",        <<"rref", "rpred", "rain_metrics.rainfall_threshold_wet">>>>,
  <<"wet_error_rates",     <<"tw", "pw">>>>,
  <<"wet_dry_error",       <<"tw", "pw">>>>,
  <<"validator_stats",     <<"vcml", "vts">>>>,
  <<"grid_series",         <<"gds", "gcml">>>>,
  <<"grid_resample",       <<"gds", "gcml", "gdf">>>>,
  <<"read_cmlh5",          <<"h5">>>> >>

NC == Len(CallSeq)
Name(c) == CallSeq[c][1]
Uses(c) == CallSeq[c][2]
Objects == UNION {ToSet(Uses(c)) : c \in 1..NC}
NumberOf(nm) == CHOOSE c \in 1..NC : Name(c) = nm
IsCall(nm) == \E c \in 1..NC : Name(c) = nm

Ver0 == [o \in Objects |-> 0]
Edited(ver, o) == [ver EXCEPT ![o] = 1 - @]
\* what identifies the result of a call
Key(ver, c) == [i \in DOMAIN Uses(c) |-> ver[Uses(c)[i]]]

\* --- recorded histories ---
\* e.steps: [op |-> "call", c |-> name, eq |-> keys whose fresh result this result equals, kept |-> objects unchanged]
\*          [op |-> "edit", o |-> object] | [op |-> "scribble", c |-> name]
Bad(e) ==
  FoldLeft(LAMBDA a, st :
    IF st.op = "edit" THEN [a EXCEPT !.ver = Edited(a.ver, st.o)]
    ELSE IF st.op = "scribble" THEN a
    ELSE LET c == NumberOf(st.c) IN
      [a EXCEPT !.bad = @ \cup Fail(st.exc # "", st.c \o " raised " \o st.exc)
                          \cup Fail(st.kept # "", st.c \o " changed " \o st.kept)
                          \cup Fail(st.exc = "" /\ ~(\E i \in DOMAIN st.eq : st.eq[i] = Key(a.ver, c)),
                                    st.c \o " result depends on earlier calls")],
    [ver |-> Ver0, bad |-> {}], e.steps).bad
=============================================================================
