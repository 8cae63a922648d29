---------------------------- MODULE ShockRunTrace ----------------------------
EXTENDS ShockRun, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
C == Traces[tid][1]
More == l <= Len(Traces[tid])
ToSet(s) == {s[i] : i \in 1..Len(s)}
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ C.ev = "Config" /\ InitWith(C.prof, C.side, C.postmax, C.outcome, C.w)
\* the file a candidate leaves
Own(f, i) == f.of = i /\ f.post /\ f.solpost /\ f.based /\ f.sols = 1 /\ f.final /\ f.settings
\* a candidate that could not be saved may leave something that cannot be read; nothing else may appear
Fragments(e) == \A k \in 1..Len(e.new) : ~e.new[k].readable
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ /\ E.ev = "Chosen"      \* which points of the profile are candidates, and the values that go with them
        /\ ToSet(E.tried) \subseteq Candidates \cup Doubtful /\ Candidates \subseteq ToSet(E.tried)
        /\ Len(E.tried) = Cardinality(ToSet(E.tried)) /\ E.values
        /\ UNCHANGED vars
     \/ /\ E.ev = "Try" /\ Try(E.i)
        /\ E.unchanged                 \* files already there, and the source
        /\ IF Usable(E.i) THEN Len(E.new) = 1 /\ Own(E.new[1], E.i)
           ELSE IF outcome[E.i] = "unsaveable" THEN Fragments(E) ELSE E.new = <<>>
     \/ /\ E.ev = "End" /\ Finish
        /\ E.unchanged
        /\ Len(E.files) = Cardinality(files)
        /\ {E.files[k].of : k \in 1..Len(E.files)} = files
        /\ \A k \in 1..Len(E.files) : Own(E.files[k], E.files[k].of)
     \/ /\ E.ev = "Whole"              \* real worker processes: only the end is seen
        /\ ph = "run" /\ done = {} /\ ph' = "done" /\ done' = Candidates /\ files' = {i \in Candidates : Usable(i)}
        /\ UNCHANGED <<prof, side, postmax, outcome, w>>
        /\ E.unchanged /\ Len(E.files) = Cardinality(files')
        /\ {E.files[k].of : k \in 1..Len(E.files)} = files'
        /\ \A k \in 1..Len(E.files) : Own(E.files[k], E.files[k].of)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
