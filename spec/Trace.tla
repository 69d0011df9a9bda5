------------------------------- MODULE Trace --------------------------------
(* Conformance of recorded executions of the implementation.  Every record is *)
(* one call (or one session of calls) with its arguments and what the         *)
(* implementation did; Judge(p, rec) says whether the specification allows it *)
(* as far as property p is concerned.  One state per record consumed.         *)
EXTENDS Judge, Json, IOUtils, TLC

Recs == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.TRACE_PROP

VARIABLE l
TraceInit == l = 0
TraceNext ==
  /\ l < Len(Recs)
  /\ l' = l + 1
  /\ IF Judge(Prop, Recs[l + 1]) THEN TRUE
     ELSE PrintT(<<"REJECT", Recs[l + 1].id>>)

TraceSpec == TraceInit /\ [][TraceNext]_l
\* every record was consumed
Consumed == TLCGet("stats").diameter - 1 = Len(Recs)
=============================================================================
