---- MODULE CoordTrace ----
(* Trace validation: every line recorded from the real code must be a step of Coord.        *)
(* "reset" starts a behaviour; a rejected line is reported and its behaviour abandoned.    *)
EXTENDS Coord, Json, CSV, IOUtils
VARIABLES st, l, ok
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == l = 1 /\ ok = TRUE /\ st = Coord0(Trace[1].cfg)
Reject(exp) == CSVWrite("%1$s", <<ToJson([line |-> l, exp |-> exp])>>, IOEnv.BADOUT)
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "reset" THEN st' = Coord0(e.cfg) /\ ok' = TRUE
     ELSE IF ~ok THEN UNCHANGED <<st, ok>>
     ELSE IF CoordAccept(st, e) THEN st' = CoordStep(st, e) /\ ok' = TRUE
     ELSE st' = st /\ ok' = FALSE /\ Reject(CoordExplain(st, e))
TraceSpec == TraceInit /\ [][TraceNext]_<<st, l, ok>>
Inv == CoordInv(st)
====
