------------------------------ MODULE ScaleMC -------------------------------
(* Bounded model: every short history of data, signal, size and option changes; source of behaviours. *)
EXTENDS Scale, Json, CSV, IOUtils
CONSTANTS MaxRuns, Emit, Rich
VARIABLES st, hist, runs
R(k, v, n) == [k |-> k, v |-> v, n |-> n]
Tables == { <<R(1, 4, NAI)>>, <<R(2, 3, 6), R(1, 9, NAI), R(2, 5, -2)>>, <<R(3, 7, 2), R(1, 2, 8), R(2, 6, 4), R(4, 2, 5)>> }
Data(fs) == [k |-> "data", ds |-> << [d |-> "A", fs |-> fs] >>, sort |-> ""]
Both(f, how) == [k |-> "multi", ds |-> << [d |-> "A", fs |-> <<f>>], [d |-> "B", fs |-> <<f>>] >>, sort |-> how]
Arr(v) == [k |-> "arr", v |-> v]
Coord == [k |-> "coord", dim |-> "y", rev |-> FALSE]
Cfg(t, d, r, o) == [type |-> t, dom |-> d, rng |-> r, opt |-> o, a |-> <<R(2, 3, 6), R(1, 9, NAI), R(2, 5, -2)>>, b |-> <<R(1, 1, 1)>>, sig |-> 10, w |-> 400, h |-> 200]
None == [o \in {} |-> 0]
Cfgs == { Cfg("linear", Data(<<"v">>), Arr(<<0, 100>>), None), Cfg("linear", Data(<<"n", "v">>), Coord, None), Cfg("linear", Both("n", ""), Arr(<<100, 0>>), [zero |-> [c |-> 1]]),
          Cfg("band", Data(<<"k">>), Arr(<<0, 200>>), None), Cfg("band", Both("k", "asc"), Coord, [padding |-> [c |-> 20]]), Cfg("point", Data(<<"k">>), Arr(<<200, 0>>), None),
          Cfg("ordinal", Both("k", "desc"), Arr(<<5, 6, 7>>), [unknown |-> [c |-> 9]]),
          Cfg("quantize", Data(<<"v">>), Arr(<<1, 2, 3>>), None), Cfg("quantile", Data(<<"n">>), Arr(<<1, 2>>), None) }
Confs(t) == IF Banded(t) THEN { [padding |-> [c |-> 0]], [padding |-> [s |-> 1]], [round |-> [c |-> 1]], [round |-> [c |-> 0], align |-> [c |-> 0]] }
            ELSE IF t \in {"linear", "quantize"} THEN { [min |-> [s |-> 1]], [max |-> [c |-> 20]], [zero |-> [s |-> 1]] } ELSE {}
Ops == {[op |-> "a", rows |-> r] : r \in Tables} \cup {[op |-> "b", rows |-> <<R(5, 12, NAI), R(1, 0, 3)>>], [op |-> "sig", v |-> 30], [op |-> "size", w |-> 240, h |-> 120]}
       \cup {[op |-> "rng", rng |-> Arr(<<50, 10>>)], [op |-> "dom", dom |-> Data(<<"v">>)], [op |-> "run", xs |-> <<1, 2, 3, 5, 30>>]}
       \cup {[op |-> "conf", opt |-> o] : o \in Confs(st.type)} \cup (IF Rich THEN {[op |-> "rf", rf |-> <<1, 3>>], [op |-> "rf", rf |-> <<0, 2>>]} ELSE {})
       \cup {[op |-> "spec", cfg |-> c] : c \in {c \in Cfgs : c.type = st.type /\ c.opt = None}}
Init == \E c \in Cfgs : st = Scale0(c) /\ hist = <<[op |-> "reset", cfg |-> c]>> /\ runs = 0
Next == \E e \in Ops :
   /\ runs < MaxRuns
   /\ e.op = "run" => Len(hist) = 1 \/ hist[Len(hist)].op # "run"
   /\ e.op # "run" => ScaleStep(st, e) # st /\ runs > 0
   /\ e.op = "spec" => runs = 1
   /\ e.op = "dom" => st.type \in {"linear", "quantize", "quantile"}
   /\ e.op = "rng" => ~(st.type \in {"quantize", "quantile"}) \/ runs = 1
   /\ st' = ScaleStep(st, e)
   /\ runs' = IF e.op = "run" THEN runs + 1 ELSE runs
   /\ hist' = IF Emit THEN Append(hist, e) ELSE <<e>>
Spec == Init /\ [][Next]_<<st, hist, runs>>
Inv == ScaleInv(st)
View == <<st, runs, hist[Len(hist)].op>>
EmitAll == (runs' = MaxRuns /\ runs' > runs) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
==============================================================================
