---- MODULE AnimTrace ----
(* Trace validation: every line recorded from the real code must be a step of Anim.        *)
(* "reset" starts a behaviour; a rejected line is reported and its behaviour abandoned.    *)
EXTENDS Anim, Json, CSV, IOUtils
VARIABLES st, l, ok
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ ok = TRUE /\ st = Anim0(Trace[1].cfg)
Reject(exp) == CSVWrite("%1$s", <<ToJson([line |-> l, exp |-> exp])>>, IOEnv.BADOUT)
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = Anim0(e.cfg) /\ ok' = TRUE
     ELSE IF ~ok THEN UNCHANGED <<st, ok>>
     ELSE IF AnimAccept(st, e) THEN st' = AnimStep(st, e) /\ ok' = TRUE
     ELSE st' = st /\ ok' = FALSE /\ Reject(AnimExplain(st, e))
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l, ok>>
Inv == AnimInv(st)
====
