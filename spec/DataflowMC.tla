----------------------------- MODULE DataflowMC -----------------------------
EXTENDS Dataflow, Json, CSV, IOUtils
CONSTANTS Nodes, MaxOps, Emit
VARIABLES st, ops, hist
vars == <<st, ops, hist>>
Seqs == {<<>>} \cup {<<a>> : a \in Nodes} \cup {<<a, b>> : a, b \in Nodes}
Acyclic(s) == \A x \in Ids(s) : x \notin Downstream(s, x)
Start == [nodes |-> [x \in Nodes |-> [src |-> x \in {"s1", "s2"}, c |-> 1, w |-> <<1, 1>>, slots |-> <<<<>>, <<>>>>]]]
Init == st = Dataflow0(Start) /\ ops = 0 /\ hist = <<>>
Der == Nodes \ {"s1", "s2"}
Cmds == {[op |-> "src", n |-> x, v |-> v] : x \in {"s1", "s2"} \cap Nodes, v \in {2, 3}}
        \cup {[op |-> "slot", n |-> x, k |-> k, deps |-> q] : x \in Der, k \in 1..2, q \in Seqs}
Command == /\ st.phase = "idle" /\ ops < MaxOps
           /\ \E e \in Cmds :
                /\ e.op = "slot" => st.node[e.n].slots[e.k] # e.deps
                /\ e.op = "src" => st.node[e.n].c # e.v
                /\ Acyclic(DataflowStep(st, e))
                /\ st' = DataflowStep(st, e) /\ ops' = ops + 1
                /\ hist' = IF Emit THEN Append(hist, e) ELSE hist
BeginPass == /\ st.phase = "idle" /\ st.pend # {} /\ st' = Begin(st) /\ UNCHANGED ops
             /\ hist' = IF Emit THEN Append(hist, [op |-> "run"]) ELSE hist
EvalOne == \E x \in Ids(st) : st.phase = "pass" /\ Ready(st, x) /\ st' = Evaluate(st, x) /\ UNCHANGED <<ops, hist>>
EndPass == st.phase = "pass" /\ st.pend = {} /\ st' = End(st) /\ UNCHANGED <<ops, hist>>
(* a whole pass as one step, for generating commands only *)
WholePass == /\ st.phase = "idle" /\ st.pend # {} /\ UNCHANGED ops
             /\ LET RECURSIVE go(_)
                    go(s) == IF s.pend = {} THEN End(s) ELSE go(Evaluate(s, CHOOSE x \in s.pend : Ready(s, x)))
                IN st' = go(Begin(st))
             /\ hist' = Append(hist, [op |-> "run"])
Next == Command \/ BeginPass \/ EvalOne \/ EndPass
Spec == Init /\ [][Next]_vars /\ WF_vars(BeginPass \/ EvalOne \/ EndPass)
GenNext == Command \/ WholePass
GenSpec == Init /\ [][GenNext]_vars
Inv == DataflowInv(st)
Terminates == (st.phase = "pass") ~> (st.phase = "idle")
View == <<st, ops>>
EmitAll == (ops' = MaxOps /\ st'.pend = {}) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
==============================================================================
