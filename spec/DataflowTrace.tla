---- MODULE DataflowTrace ----
(* Trace validation: every line recorded from the real code must be a step of Dataflow.        *)
(* "reset" starts a behaviour; a rejected line is reported and its behaviour abandoned.    *)
EXTENDS Dataflow, Json, CSV, IOUtils
VARIABLES st, l, ok
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ ok = TRUE /\ st = Dataflow0(Trace[1].cfg)
Reject(exp) == CSVWrite("%1$s", <<ToJson([line |-> l, exp |-> exp])>>, IOEnv.BADOUT)
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = Dataflow0(e.cfg) /\ ok' = TRUE
     ELSE IF ~ok THEN UNCHANGED <<st, ok>>
     ELSE IF DataflowAccept(st, e) THEN st' = DataflowStep(st, e) /\ ok' = TRUE
     ELSE st' = st /\ ok' = FALSE /\ Reject(DataflowExplain(st, e))
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l, ok>>
Inv == DataflowInv(st)
====
