------------------------------ MODULE XformMC -------------------------------
(* Bounded model: every history over a catalogue of transforms; source of generated behaviours. *)
EXTENDS Xform, Json, CSV, IOUtils
CONSTANTS MaxRuns, Emit, Rich
VARIABLES st, hist, runs
R(k, g, v, w) == [k |-> k, g |-> g, h |-> k % 2, v |-> v, w |-> w]
Rows == { <<>>, <<R(1, 1, 3, 1)>>, <<R(1, 1, 2, 0), R(2, 2, -1, 2), R(3, 1, 2, 1), R(4, 2, 5, 1)>>, <<R(3, 2, 4, 2), R(1, 1, 0, 2), R(2, 2, 4, 3)>> }
C(x) == [c |-> x]
S == [s |-> 1]
One == { [t |-> "filter", f |-> "v", cmp |-> "gt", p |-> S], [t |-> "filter", f |-> "k", cmp |-> "odd", p |-> C(0)],
         [t |-> "sort", fs |-> <<"v">>, os |-> <<"desc">>, fn |-> FALSE], [t |-> "sort", fs |-> <<"g", "v">>, os |-> <<"asc", "desc">>, fn |-> FALSE],
         [t |-> "map", f |-> "v", p |-> S, as |-> "a1"], [t |-> "mapall", how |-> "rev", p |-> C(0)], [t |-> "mapall", how |-> "head", p |-> S] }
More == { [t |-> "fold", fs |-> <<"v", "w">>, askey |-> "key", asval |-> "value", ret |-> <<>>],
          [t |-> "unfold", key |-> "g", val |-> "v", gb |-> <<"h">>, agg |-> "sum"], [t |-> "unfold", key |-> "k", val |-> "w", gb |-> <<>>, agg |-> "max"],
          [t |-> "join", key |-> "k", fs |-> <<"g">>, vals |-> <<"v">>, as |-> <<"b1">>, def |-> NULL], [t |-> "pick", fs |-> <<"v", "k">>, as |-> <<"v", "w">>],
          [t |-> "bin", f |-> "v", lo |-> C(0), hi |-> C(4), step |-> 2, bins |-> C(1), as |-> <<"lo", "hi">>],
          [t |-> "stack", dim |-> "g", f |-> "v", off |-> "diverging", neg |-> FALSE, as |-> [stack |-> "y1", prev |-> "y0", pct |-> "yp"]],
          [t |-> "stack", dim |-> "h", f |-> "v", off |-> "silhouette", neg |-> TRUE, as |-> [stack |-> "y1", prev |-> "y0", sum |-> "ys"]] }
Pipes1 == {<<>>} \cup {<<x>> : x \in One}
PipesB == {<<>>} \cup {<<x>> : x \in One \cup More} \cup (IF Rich THEN {<<x, y>> : x \in One, y \in More} ELSE {})
Cfgs == [at : Pipes1, bt : PipesB, sig : {1}]
Ops == {[op |-> "vals", rows |-> r] : r \in Rows} \cup {[op |-> "sig", v |-> x] : x \in {0, 2}} \cup {[op |-> "run"]}
       \cup {[op |-> "look", rows |-> <<R(1, 1, 7, 0), R(2, 2, 8, 0), R(1, 1, 9, 0)>>]}
       \cup {[op |-> "addf", f |-> [id |-> 1, rank |-> 1, f |-> "k", cmp |-> "ne", c |-> 1]], [op |-> "delf", id |-> 1]}
Init == \E c \in Cfgs : st = Xform0(c) /\ hist = <<[op |-> "reset", cfg |-> c]>> /\ runs = 0
Next == \E e \in Ops :
   /\ runs < MaxRuns
   /\ e.op = "run" => ~st.ran
   /\ e.op = "look" => st.lv = <<>> /\ \E i \in 1..Len(st.bt) : st.bt[i].t = "join"
   /\ e.op = "vals" => st.av # e.rows /\ (st.ran \/ st.av = <<>>)
   /\ e.op = "sig" => st.sig # e.v /\ st.ran
   /\ e.op = "addf" => st.af = <<>> /\ st.ran
   /\ e.op = "delf" => st.af # <<>> /\ st.ran
   /\ st' = XformStep(st, e)
   /\ runs' = IF e.op = "run" THEN runs + 1 ELSE runs
   /\ hist' = IF Emit THEN Append(hist, e) ELSE hist
Spec == Init /\ [][Next]_<<st, hist, runs>>
Inv == XformInv(st)
View == <<st, runs>>
EmitAll == (runs' = MaxRuns /\ runs' > runs) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
==============================================================================
