---------------------------- MODULE CsvFileTrace ----------------------------
EXTENDS CsvFile, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ E.ev = "line" /\ (CASE E.x.k = "comment" -> Line(Comment(E.x.i)) [] E.x.k = "blank" -> Line(Blank)
                            [] E.x.k = "header" -> AddHeader(E.x.cols) [] OTHER -> Line(Row(E.x.vals)))
     \/ E.ev = "produce" /\ Produce(E.cols, E.hdr, E.rows, IF E.who = "csvrunner" THEN 3 ELSE 0)
     \* one input per row in order, and every one has the label asked for
     \/ E.ev = "read" /\ Read /\ E.m = got' /\ E.labelled = Len(got')
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
