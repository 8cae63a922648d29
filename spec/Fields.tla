------------------------------- MODULE Fields -------------------------------
(* The settings of a calculation and the values they can take, as small tokens (shared by the
   specifications of result files and of how settings travel).  0 stands for "no value", DFLT for
   the documented default, other numbers for distinguishable values; the power-law exponent is
   counted in thousandths. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

DFLT == 9
NOTEXT == 7                 \* the text "None" in a configuration
TRUEV == 1
FALSEV == 2

-----------------------------------------------------------------------------
(* configuration and solution inputs *)
Plain == {"start", "stop", "taylor_stop_angle", "max_steps", "num_angles", "relative_tolerance",
          "absolute_tolerance", "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k", "eta_O", "eta_H", "eta_A"}
Later == {"jump_before_sonic", "eta_derivs", "nwalkers", "iterations", "threads", "target_velocity",
          "split_method", "use_taylor_jump", "mcmc_vars", "v_t_sonic_crit", "after_sonic",
          "sonic_interp_size", "interp_range", "interp_slice", "use_E_r"}
InpFields == Plain \cup {"gamma"} \cup Later
ConfFields == InpFields \cup {"label"}
Optional == {"jump_before_sonic", "mcmc_vars", "v_t_sonic_crit", "after_sonic", "sonic_interp_size"}
Flags == {"eta_derivs", "use_taylor_jump", "use_E_r"}
\* 3 is the number zero, where it is not the default (and can be worked with)
ZERO == 3
MayBeZero == {"stop", "taylor_stop_angle", "relative_tolerance", "absolute_tolerance", "v_rin_on_c_s", "v_a_on_c_s", "eta_O", "eta_H",
              "eta_A", "jump_before_sonic", "target_velocity", "v_t_sonic_crit", "after_sonic", "sonic_interp_size", "interp_range"}
\* the values a record of version v can hold
InpDom(f, v) == (IF f \in MayBeZero THEN {ZERO} ELSE {}) \cup
                CASE f = "gamma" -> {1, 550, 1249, 1250, 1300}
                  [] f \in Flags -> {TRUEV, FALSEV}
                  [] f = "mcmc_vars" -> 0..6 \cup {8}
                  [] f \in Optional -> {0, 1, 2}
                  [] f = "interp_range" -> IF v = 12 THEN {1, 2, DFLT} ELSE {0, 1, 2, DFLT}
                  [] f = "interp_slice" -> {0, 1, 2, 3, 4, DFLT}
                  [] OTHER -> {1, 2, DFLT}
\* configurations hold texts, where "None" is a text as well
TextNone == Optional \cup {"interp_range", "interp_slice"}
ConfDom(f, v) == IF f \in TextNone /\ ~(f = "interp_range" /\ v = 12)
                 THEN InpDom(f, v) \cup {NOTEXT} ELSE InpDom(f, v)
\* a loaded configuration as the solver sees it
ToSolver(c) == [f \in InpFields |-> IF c[f] = NOTEXT /\ f \in TextNone THEN 0 ELSE c[f]]
=============================================================================
