---------------------------- MODULE InternalTrace ----------------------------
EXTENDS Internal, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1
\* after every operation every record is observed in full
Seen == \A n \in Names : LET o == E.recs[n] IN
          /\ o.rows = rec'[n].rows /\ o.jacs = rec'[n].jacs
          /\ \A a \in Angles : o.probs[a] = rec'[n].probs[a]
          /\ {o.keys[i] : i \in 1..Len(o.keys)} = {a \in Angles : rec'[n].probs[a] # <<>>}
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ E.ev = "fresh" /\ Fresh(E.x)
     \/ E.ev = "note" /\ Note(E.x)
     \/ E.ev = "jac" /\ NoteJac(E.x)
     \/ E.ev = "report" /\ Report(E.x, E.y, E.z)
     \/ E.ev = "forget" /\ Forget(E.x, E.y)
     \/ E.ev = "finalise" /\ Finalise(E.x)
     \/ E.ev = "flip" /\ Flip(E.x)
     \/ E.ev = "query" /\ Query(E.x, E.y) /\ E.yes = (rec[E.x].probs[E.y] # <<>>)
     \/ E.ev = "join" /\ Join(E.x, E.y, E.z)
  /\ Seen
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
