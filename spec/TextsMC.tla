------------------------------ MODULE TextsMC ------------------------------
EXTENDS Texts, Json, CSV, IOUtils
CONSTANTS Mode, Rounds, MaxOps
VARIABLE hist
mcvars == <<vars, hist>>
Pick(S) == RandomElement(S)
L == Len(hist)
Order == <<"start", "stop", "taylor_stop_angle", "max_steps", "num_angles", "relative_tolerance", "absolute_tolerance",
  "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k", "eta_O", "eta_H", "eta_A", "gamma", "jump_before_sonic", "eta_derivs",
  "nwalkers", "iterations", "threads", "target_velocity", "split_method", "use_taylor_jump", "mcmc_vars",
  "v_t_sonic_crit", "after_sonic", "sonic_interp_size", "interp_range", "interp_slice", "use_E_r">>
Idx(f) == CHOOSE i \in 1..Len(Order) : Order[i] = f
\* in round k every setting has the (k + its place)th of its (value, writing) pairs: over all rounds each has every pair
NPairs(f) == Cardinality(Values(Kind(f))) * Cardinality(Writings)
Low(f) == IF 0 \in Values(Kind(f)) THEN 0 ELSE 1
ValAt(f, k) == Low(f) + (((k + 7 * Idx(f)) % NPairs(f)) \div Cardinality(Writings))
WriAt(f, k) == 1 + (((k + 7 * Idx(f)) % NPairs(f)) % Cardinality(Writings))
Chain == <<"given", "tosolver", "writecfg", "readcfg", "tosolver", "totext", "tosolver", "writecfg", "readcfg", "tosolver",
           "writerow", "readrow", "tosolver">>
MCInit == Init /\ hist = <<>>
H(op) == hist' = Append(hist, [op |-> op])
HG(v, w, lb) == hist' = Append(hist, [op |-> "given", v |-> v, w |-> w, lb |-> lb])
Fixed ==
  \/ /\ L = 0 /\ \E k \in 0..(Rounds - 1) :
        LET v == [f \in InpFields |-> ValAt(f, k)] IN
        Given(v, 1 + (k % NWord)) /\ HG(v, [f \in InpFields |-> WriAt(f, k)], 1 + (k % NWord))
  \/ /\ L > 0 /\ L < Len(Chain)
     /\ LET c == Chain[L + 1] IN H(c) /\
        CASE c = "tosolver" -> ToSolver_ [] c = "totext" -> ToText [] c = "writecfg" -> WriteCfg [] c = "readcfg" -> ReadCfg
          [] c = "writerow" -> WriteRow [] c = "readrow" -> ReadRow
Anyhow ==
  \/ /\ L = 0 /\ \E v \in {[f \in InpFields |-> Pick(Values(Kind(f)))]}, w \in {[f \in InpFields |-> Pick(Writings)]}, lb \in {Pick(1..NWord)} :
        Given(v, lb) /\ HG(v, w, lb)
  \/ /\ L > 0 /\ L < MaxOps
     /\ \/ (ToSolver_ /\ H("tosolver"))
        \/ (ToText /\ H("totext"))
        \/ (WriteCfg /\ H("writecfg"))
        \/ (ReadCfg /\ H("readcfg"))
        \/ (WriteRow /\ H("writerow"))
        \/ (ReadRow /\ H("readrow"))
        \/ (Record /\ H("record"))
        \/ (LoadSolver /\ H("loadsolver"))
        \/ (LoadText /\ H("loadtext"))
        \/ (DumpCfg /\ H("dumpcfg"))
        \/ (DumpRow /\ H("dumprow"))
MCNext == IF Mode = "fixed" THEN Fixed ELSE Anyhow
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == (L = IF Mode = "fixed" THEN Len(Chain) ELSE MaxOps) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
