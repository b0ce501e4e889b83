------------------------------ MODULE ProgressMC ------------------------------
EXTENDS Progress, Json, CSV, IOUtils
CONSTANTS MaxOps, Emit
VARIABLES st, n, hist
R(k, g, v) == [k |-> k, g |-> g, v |-> v]
Big == <<R(1, "a", 3), R(2, "b", 1), R(3, "a", 8), R(4, "a", 5), R(5, "b", 2), R(6, "a", 6)>>
Rows == {<<>>, SubSeq(Big, 1, 3), Big, Rev(Big)}
M(id, ty, d, step, thr, grp, stt, own) == [id |-> id, ty |-> ty, d |-> d, step |-> step, thr |-> thr, grp |-> grp, st |-> stt, own |-> own]
Cfgs == {[sig |-> 1, data |-> [d1 |-> Big, d2 |-> SubSeq(Big, 1, 5)], ms |-> ms] : ms \in
  {<<M("m1", "rect", "d1", 1, 2, TRUE, 5, TRUE), M("m2", "symbol", "d2", 2, 4, FALSE, 0 - 1, FALSE)>>,
   <<M("m1", "line", "d1", 2, 3, TRUE, 0 - 1, TRUE), M("m2", "pt", "d1", 2, 0, FALSE, 4, TRUE)>>,
   <<M("m1", "pa", "d1", 3, 0, FALSE, 0 - 1, FALSE), M("m2", "rect", "d2", 2, 3, FALSE, 0 - 1, TRUE)>>}}
Ops == {[op |-> "data", d |-> d, rows |-> q] : d \in {"d1", "d2"}, q \in Rows} \cup {[op |-> "sig", v |-> v] : v \in {1, 2}}
  \cup {[op |-> "oth", v |-> v] : v \in {1, 2}} \cup {[op |-> "conf", m |-> "m1", step |-> 2, thr |-> t] : t \in {1, 3, 9}} \cup {[op |-> "del", m |-> "m2"]}
  \cup {[op |-> "frame"]}
(* a run may restart unfinished marks *)
Ns(s) == [{m.id : m \in Range(s.ms)} -> {0 - 1, 0 - 2}]
RunE(s, f) == [op |-> "run", n |-> [i \in DOMAIN f |-> LET m == Filter(s.ms, LAMBDA x : x.id = i)[1] IN IF f[i] = 0 - 1 \/ ~Unfinished(m) THEN Count(m) ELSE 0 - 2]]
Enabled(s, e) == CASE e.op = "del" -> \E m \in Range(s.ms) : m.id = e.m /\ m.live [] e.op = "conf" -> \E m \in Range(s.ms) : m.id = e.m /\ ~Behind(m) [] OTHER -> TRUE
Init == \E c \in Cfgs : st = Progress0(c) /\ n = 0 /\ hist = IF Emit THEN <<[op |-> "reset", cfg |-> c]>> ELSE <<>>
Do(e, h) == st' = ProgressStep(st, e) /\ n' = n + 1 /\ hist' = IF Emit THEN Append(hist, h) ELSE hist
Next == n < MaxOps /\ (\/ \E e \in Ops : Enabled(st, e) /\ Do(e, e)
                       \/ \E f \in Ns(st) : Do(RunE(st, f), [op |-> "run"]))
Spec == Init /\ [][Next]_<<st, n, hist>>
View == <<st, n>>
Inv == ProgressInv(st)
RECURSIVE Frames(_, _)
Frames(s, k) == IF k = 0 THEN s ELSE Frames(ProgressStep(s, [op |-> "frame"]), k - 1)
All(m) == Map(m.snap.rows, LAMBDA r : Item(m, r))
(* after enough frames everything is drawn once: what a mark without steps would draw *)
Complete == LET s1 == Frames(st, 7) IN \A m \in Range(s1.ms) : m.live /\ m.snap.init => ~Unfinished(m) /\ Bag(Flat(Drawn(m))) = Bag(All(m))
(* a frame only adds to what is drawn, and only in unfinished marks *)
Grows == LET s1 == ProgressStep(st, [op |-> "frame"]) IN \A i \in 1..Len(st.ms) :
  /\ \A g \in 1..Len(Drawn(st.ms[i])) : Prefix(Drawn(s1.ms[i])[g], Len(Drawn(st.ms[i])[g])) = Drawn(st.ms[i])[g]
  /\ (~Unfinished(st.ms[i]) => s1.ms[i] = st.ms[i])
EmitAll == n' = MaxOps => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
==============================================================================
