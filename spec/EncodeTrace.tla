---- MODULE EncodeTrace ----
(* Trace validation: every line recorded from the real code must be a step of Encode.        *)
(* "reset" starts a behaviour; a rejected line is reported and its behaviour abandoned.    *)
EXTENDS Encode, Json, CSV, IOUtils
VARIABLES st, l, ok
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ ok = TRUE /\ st = Encode0(Trace[1].cfg)
Reject(exp) == CSVWrite("%1$s", <<ToJson([line |-> l, exp |-> exp])>>, IOEnv.BADOUT)
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = Encode0(e.cfg) /\ ok' = TRUE
     ELSE IF ~ok THEN UNCHANGED <<st, ok>>
     ELSE IF EncodeAccept(st, e) THEN st' = EncodeStep(st, e) /\ ok' = TRUE
     ELSE st' = st /\ ok' = FALSE /\ Reject(EncodeExplain(st, e))
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l, ok>>
Inv == EncodeInv(st)
====
