------------------------------ MODULE FormatMC ------------------------------
EXTENDS Format, Json, CSV, IOUtils
CONSTANTS OnlyLatest, MaxOps, Script     \* Script: fixed order of operations, else any order
VARIABLE hist
mcvars == <<vars, hist>>
Vers(latest) == IF OnlyLatest THEN {latest} ELSE 1..latest
Pick(S) == RandomElement(S)

(* one particular value in one particular record, everything else ordinary *)
Base(f) == IF f = "gamma" THEN 1249 ELSE IF f \in Optional THEN 0 ELSE 1
InpBase(v) == [ver |-> v, val |-> [f \in InpKeys(v) |-> Base(f)]]
ConfBase(v) == [ver |-> v, val |-> [f \in ConfKeys(v) |-> Base(f)]]
ICBase(v) == [ver |-> v, val |-> [f \in ICKeys(v) |-> IF f = "gamma" THEN 1249 ELSE 1]]
IDBase(v) == [ver |-> v, val |-> [f \in IDKeys(v) |-> 1]]
SolBase(v, iv, icv, idata) == [ver |-> v, val |-> [f \in SolKeys(v) |-> 1], inp |-> InpBase(iv), ic |-> ICBase(icv), idata |-> idata]
RunBase(v) == [ver |-> v, val |-> [f \in RunKeys(v) |-> 1]]
SolB == SolBase(SolLatest, InpLatest, ICLatest, <<>>)
FileB == [run |-> RunBase(RunLatest), conf |-> ConfBase(InpLatest), sols |-> <<SolB>>, final |-> <<>>]
Set(r, f, x) == [r EXCEPT !.val = [@ EXCEPT ![f] = x]]
Focus ==
  UNION {{[FileB EXCEPT !.conf = Set(ConfBase(v), f, x)] : x \in ConfDom(f, v)} : <<f, v>> \in {<<f, v>> \in ConfFields \X Vers(InpLatest) : f \in ConfKeys(v)}}
  \cup UNION {{[FileB EXCEPT !.sols = <<[SolB EXCEPT !.inp = Set(InpBase(v), f, x)]>>] : x \in InpDom(f, v)} : <<f, v>> \in {<<f, v>> \in InpFields \X Vers(InpLatest) : f \in InpKeys(v)}}
  \cup UNION {{[FileB EXCEPT !.sols = <<[SolB EXCEPT !.ic = Set(ICBase(v), f, x)]>>] : x \in ICDom(f)} : <<f, v>> \in {<<f, v>> \in ICFields \X Vers(ICLatest) : f \in ICKeys(v)}}
  \cup UNION {{[FileB EXCEPT !.sols = <<[SolB EXCEPT !.idata = <<Set(IDBase(v), f, x)>>]>>] : x \in IDDom(f)} : <<f, v>> \in {<<f, v>> \in IDFields \X Vers(IDLatest) : f \in IDKeys(v)}}
  \cup UNION {{[FileB EXCEPT !.sols = <<Set(SolBase(v, InpLatest, ICLatest, <<>>), f, x)>>] : x \in SolDom(f)} : <<f, v>> \in {<<f, v>> \in SolOwn \X Vers(SolLatest) : f \in SolKeys(v)}}
  \cup UNION {{[FileB EXCEPT !.run = Set(RunBase(v), f, x), !.conf = ConfBase(c), !.final = <<SolBase(SolLatest, c, ICLatest, <<>>)>>] :
                x \in RunDom(f), c \in Vers(InpLatest) \cap {13, 14}} : <<f, v>> \in {<<f, v>> \in RunFields \X Vers(RunLatest) : f \in RunKeys(v)}}

(* files where everything varies *)
RInp(v) == [ver |-> v, val |-> [f \in InpKeys(v) |-> Pick(InpDom(f, v))]]
RConf(v) == [ver |-> v, val |-> [f \in ConfKeys(v) |-> Pick(ConfDom(f, v))]]
RIC(v) == [ver |-> v, val |-> [f \in ICKeys(v) |-> Pick(ICDom(f))]]
RID(v) == [ver |-> v, val |-> [f \in IDKeys(v) |-> Pick(IDDom(f))]]
RSol(x) == [ver |-> x[1], val |-> [f \in SolKeys(x[1]) |-> Pick(SolDom(f))], inp |-> RInp(x[2]), ic |-> RIC(x[3]),
            idata |-> IF Pick(1..3) = 1 THEN <<>> ELSE <<RID(Pick(Vers(IDLatest)))>>]
RVers(i) == <<Pick(Vers(SolLatest)), Pick(Vers(InpLatest)), Pick(Vers(ICLatest))>>
RRun(v) == [ver |-> v, val |-> [f \in RunKeys(v) |-> Pick(RunDom(f))]]
RFile(n, m) == [run |-> RRun(Pick(Vers(RunLatest))), conf |-> RConf(Pick(Vers(InpLatest))),
                sols |-> [i \in 1..n |-> RSol(RVers(i))], final |-> [i \in 1..m |-> RSol(RVers(i))]]

MCInit == Init /\ hist = <<>>
L == Len(hist)
At(op) == ~Script \/ hist[L].op = op
MCNext ==
  /\ L < MaxOps
  /\ \/ /\ L = 0
        /\ \E f \in (IF Script THEN Focus ELSE {RFile(Pick({0, 1, 1, 2, 2, 3}), Pick(0..1))}) : Write(f) /\ hist' = <<[op |-> "write", f |-> f]>>
     \/ L > 0 /\ \E c \in BOOLEAN : At(IF L = 1 THEN "write" ELSE "rewrite") /\ Read(c)
                    /\ (Script /\ L > 1 => c # hist[2].c) /\ hist' = Append(hist, [op |-> "read", c |-> c])
     \/ L > 0 /\ At("read") /\ Use /\ hist' = Append(hist, [op |-> "use"])
     \/ L > 0 /\ At("use") /\ Rewrite /\ hist' = Append(hist, [op |-> "rewrite"])
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == (L = MaxOps) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
