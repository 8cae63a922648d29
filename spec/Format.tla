------------------------------- MODULE Format -------------------------------
(* Result files: what each published record version stores, and what a reader gets back.

   A file holds one run: the run record, its configuration, numbered solutions and optionally a
   final solution.  Every record carries a version.  A value is a small token: 0 stands for "no
   value", DFLT for the documented default, other numbers for distinguishable values; the power-law
   exponent is counted in thousandths, so that its change of parametrisation (beta = 5/4 - gamma,
   stored by the early versions) is exact. *)
EXTENDS Fields

BETA0 == 1250               \* gamma + beta, in thousandths
-----------------------------------------------------------------------------
(* configuration and solution inputs *)
InpLatest == 14
Since(f) == CASE f \in Plain \cup {"gamma", "label"} -> 1
              [] f = "jump_before_sonic" -> 2
              [] f = "eta_derivs" -> 3
              [] f \in {"nwalkers", "iterations", "threads"} -> 5
              [] f = "target_velocity" -> 6
              [] f = "split_method" -> 7
              [] f = "use_taylor_jump" -> 8
              [] f = "mcmc_vars" -> 9
              [] f = "v_t_sonic_crit" -> 10
              [] f = "after_sonic" -> 11
              [] f \in {"sonic_interp_size", "interp_range"} -> 12
              [] f = "interp_slice" -> 13
              [] f = "use_E_r" -> 14
\* what a reader reports where the version had no such value
Default(f) == CASE f \in Optional -> 0
                [] f \in {"eta_derivs", "use_taylor_jump"} -> TRUEV
                [] f = "use_E_r" -> FALSEV
                [] OTHER -> DFLT
GammaOf(v, x) == IF v < 4 THEN BETA0 - x ELSE x
HasInp(f, v) == Since(f) <= v
InpKeys(v) == {f \in InpFields : HasInp(f, v)}
ConfKeys(v) == {f \in ConfFields : HasInp(f, v)}
\* use_E_r is filled in from the run where the input did not store it
LoadInp(r, er) == [f \in InpFields |->
   IF f = "gamma" THEN GammaOf(r.ver, r.val[f])
   ELSE IF HasInp(f, r.ver) THEN r.val[f]
   ELSE IF f = "use_E_r" THEN er ELSE Default(f)]
LoadConf(r, er) == [f \in ConfFields |->
   IF f = "gamma" THEN GammaOf(r.ver, r.val[f])
   ELSE IF HasInp(f, r.ver) THEN r.val[f]
   ELSE IF f = "use_E_r" THEN er ELSE Default(f)]

-----------------------------------------------------------------------------
(* initial conditions *)
ICLatest == 3
ICFields == {"norm_kepler_sq", "a_0", "gamma", "eta_O", "eta_A", "eta_H", "init_con", "angles"}
ICKeys(v) == IF v = 1 THEN ICFields \ {"a_0"} ELSE ICFields
ICDom(f) == CASE f = "gamma" -> {1, 1249} [] f = "angles" -> {1, 2, 3}
              [] f = "init_con" -> {1, 2}     \* 2: eight variables, the diffusivities apart
              [] OTHER -> {1, 2}
LoadIC(r) == [f \in ICFields |-> IF f = "gamma" THEN (IF r.ver < 3 THEN BETA0 - r.val[f] ELSE r.val[f])
                                 ELSE IF f \in ICKeys(r.ver) THEN r.val[f] ELSE 0]   \* a_0 unknown

-----------------------------------------------------------------------------
(* internal data; 0: not kept *)
IDLatest == 3
IDSeqs == {"derivs", "params", "angles", "v_r_normal", "v_p_normal", "rho_normal",
           "v_r_taylor", "v_p_taylor", "rho_taylor"}
IDFields == IDSeqs \cup {"problems", "jacobians"}
IDKeys(v) == CASE v = 1 -> IDSeqs [] v = 2 -> IDSeqs \cup {"problems"} [] OTHER -> IDFields
IDDom(f) == 0..3            \* how many entries; for problems: which of four reports
LoadID(r) == [f \in IDFields |-> IF f \in IDKeys(r.ver) THEN r.val[f] ELSE 0]

-----------------------------------------------------------------------------
(* solutions *)
SolLatest == 4
SolOwn == {"flag", "coordinate_system", "angles", "solution", "t_roots", "y_roots", "derivatives",
           "sonic_point", "sonic_point_values", "is_post_shock_only"}
SolKeys(v) == SolOwn \ ((IF v < 2 THEN {"derivatives"} ELSE {})
                  \cup (IF v < 3 THEN {"sonic_point", "sonic_point_values"} ELSE {})
                  \cup (IF v < 4 THEN {"is_post_shock_only"} ELSE {}))
SolDom(f) == CASE f = "flag" -> {0, 1, 2, 3}
               [] f = "coordinate_system" -> {1, 2}
               [] f = "is_post_shock_only" -> {TRUEV, FALSEV}
               [] f \in {"angles", "solution"} -> {1, 2, 3, 4}
               [] OTHER -> {0, 1, 2, 3}
SolDefault(f) == IF f = "is_post_shock_only" THEN FALSEV ELSE 0
LoadOwn(r) == [f \in SolOwn |-> IF f \in SolKeys(r.ver) THEN r.val[f] ELSE SolDefault(f)]
LoadSol(s, er) == [own |-> LoadOwn(s), inp |-> LoadInp(s.inp, er), ic |-> LoadIC(s.ic),
                   idata |-> IF s.idata = <<>> THEN <<>> ELSE <<LoadID(s.idata[1])>>]

-----------------------------------------------------------------------------
(* runs *)
RunLatest == 6
RunFields == {"time", "config_filename", "disc_solver_version", "float_type", "sonic_method",
              "use_E_r", "is_post_shock_only", "based_on_file", "based_on_solution"}
RunKeys(v) == RunFields \ ((IF v < 2 THEN {"disc_solver_version"} ELSE {})
                     \cup (IF v < 3 THEN {"float_type"} ELSE {})
                     \cup (IF v < 4 THEN {"sonic_method"} ELSE {})
                     \cup (IF v < 5 THEN {"use_E_r"} ELSE {})
                     \cup (IF v < 6 THEN {"is_post_shock_only", "based_on_file", "based_on_solution"} ELSE {}))
RunDom(f) == CASE f \in {"use_E_r", "is_post_shock_only"} -> {TRUEV, FALSEV}
               [] f \in {"config_filename", "based_on_file", "based_on_solution"} -> {0, 1, 2}
               [] OTHER -> {1, 2}
RunDefault(f) == CASE f \in {"use_E_r", "is_post_shock_only"} -> FALSEV
                   [] f = "sonic_method" -> DFLT        \* "unknown"
                   [] OTHER -> 0
LoadRunRec(r) == [f \in RunFields |-> IF f \in RunKeys(r.ver) THEN r.val[f] ELSE RunDefault(f)]
RunER(r) == LoadRunRec(r)["use_E_r"]

Load(file) == LET er == RunER(file.run) IN
  [run |-> LoadRunRec(file.run), conf |-> LoadConf(file.conf, er),
   sols |-> [i \in 1..Len(file.sols) |-> LoadSol(file.sols[i], er)],
   final |-> [i \in 1..Len(file.final) |-> LoadSol(file.final[i], er)]]

(* writing a loaded run again gives a file of the newest versions holding the same values *)
AsInp(m) == [ver |-> InpLatest, val |-> m]
AsSol(m) == [ver |-> SolLatest, val |-> m.own, inp |-> AsInp(m.inp), ic |-> [ver |-> ICLatest, val |-> m.ic],
             idata |-> IF m.idata = <<>> THEN <<>> ELSE <<[ver |-> IDLatest, val |-> m.idata[1]]>>]
Store(m) == [run |-> [ver |-> RunLatest, val |-> m.run], conf |-> AsInp(m.conf),
             sols |-> [i \in 1..Len(m.sols) |-> AsSol(m.sols[i])],
             final |-> [i \in 1..Len(m.final) |-> AsSol(m.final[i])]]

-----------------------------------------------------------------------------
VARIABLES file, mem, writes
vars == <<file, mem, writes>>
NoFile == [none |-> TRUE]
Init == file = NoFile /\ mem = NoFile /\ writes = 0
\* a file appears: written by some version of the program
Write(f) == file = NoFile /\ file' = f /\ writes' = writes + 1 /\ UNCHANGED mem
\* it is read, with or without keeping solutions in memory: the same values
Read(cached) == file # NoFile /\ mem' = Load(file) /\ UNCHANGED <<file, writes>>
\* what was read is written to a new file by the current version
Rewrite == mem # NoFile /\ file' = Store(mem) /\ writes' = writes + 1 /\ UNCHANGED mem
\* the configuration read is turned into solver input
Use == mem # NoFile /\ UNCHANGED vars

(* properties of the conversion itself *)
Usable == mem # NoFile =>
   /\ \A f \in InpFields \ (TextNone \cup {"gamma"}) : mem.conf[f] # 0
   /\ mem.conf["use_E_r"] \in {TRUEV, FALSEV}
   /\ \A i \in 1..Len(mem.sols) : \A f \in InpFields \ (TextNone \cup {"gamma"}) :
          mem.sols[i].inp[f] # 0
\* once written by the current version nothing changes any more
Stable == (writes > 1 /\ mem # NoFile /\ file.run.ver = RunLatest) => (Load(file) = mem)
=============================================================================
