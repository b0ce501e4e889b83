------------------------------- MODULE JoinMC -------------------------------
(* Bounded model: exhaustive exploration, and source of generated behaviours. *)
EXTENDS Join, Json, CSV, IOUtils
CONSTANTS MaxRuns, Emit
VARIABLES st, hist, runs
vars == <<st, hist, runs>>

R(k, g, v) == [k |-> k, j |-> IF k = "c" THEN "a" ELSE k, g |-> g, v |-> v]
RowSets == { <<>>, <<R("a","A",1)>>, <<R("b","A",2), R("a","A",1)>>, <<R("a","A",1), R("b","B",3), R("a","A",2)>>,
             <<R("c","B",2), R("b","B",2), R("a","A",3)>>, <<R("a","B",1), R("c","A",1)>> }
Cfgs == [coll : {FALSE}, bound : {TRUE}, keyMode : {"k", "idx"}, sort : {"none", "desc"}, group : BOOLEAN, gsort : {"none"}]
        \cup [coll : {TRUE}, bound : {TRUE}, keyMode : {"k"}, sort : {"none"}, group : BOOLEAN, gsort : {"none", "asc"}]
Alt(c) == { [c EXCEPT !.sort = IF c.coll THEN "none" ELSE "asc"], [c EXCEPT !.bound = ~c.bound],
            [c EXCEPT !.keyMode = IF c.keyMode = "k" THEN "j" ELSE "k"] }
Ops == {[op |-> "rows", rows |-> r] : r \in RowSets} \cup {[op |-> "touch"], [op |-> "run"]}
       \cup {[op |-> "rejoin", cfg |-> c] : c \in Alt(st.cfg)}
Init == /\ \E c \in Cfgs : st = Join0(c) /\ hist = <<[op |-> "reset", cfg |-> c]>>
        /\ runs = 0
Next == \E e \in Ops :
   /\ e.op = "run" => runs < MaxRuns /\ st.dirty
   /\ e.op = "rejoin" => ~st.dirty /\ runs < MaxRuns
   /\ e.op = "rows" => e.rows # st.rows
   /\ e.op = "touch" => ~st.dirty
   /\ runs < MaxRuns
   /\ st' = JoinStep(st, e)
   /\ runs' = IF e.op = "run" THEN runs + 1 ELSE runs
   /\ hist' = IF Emit THEN Append(hist, e) ELSE hist
Spec == Init /\ [][Next]_vars
Inv == JoinInv(st)
Identity == [][JoinIdentity(st, st')]_vars
View == <<st, runs>>
EmitAll == (runs' = MaxRuns) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
==============================================================================
