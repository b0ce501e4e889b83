------------------------------- MODULE AnimMC -------------------------------
EXTENDS Anim, Json, CSV, IOUtils
CONSTANTS MaxOps, Emit
VARIABLES st, n, hist
C(s, i, d, stp) == [st |-> s, fx |-> s, id |-> s \o ToString(i), tag |-> s \o ToString(i), dur |-> d, delay |-> 0, after |-> 0, start |-> 0, obo |-> 0, n |-> 1, stop |-> stp]
Confs0 == {<<C("enter", 0, 100, FALSE), C("exit", 0, 100, FALSE), C("exit", 1, 160, FALSE)>>,
          <<C("enter", 0, 100, TRUE), C("update", 0, 100, FALSE), C("hey", 0, 60, FALSE)>>,
          <<C("enter", 0, 60, FALSE), C("update", 0, 100, TRUE), C("exit", 0, 60, FALSE), C("hey", 0, 100, TRUE)>>}
Row(k, x, s) == [k |-> k, x |-> x, s |-> s]
RowSets == {<<>>, <<Row("a", 1, "")>>, <<Row("a", 2, ""), Row("b", 3, "hey")>>, <<Row("b", 4, "")>>}
Acts == {[op |-> "rows", m |-> "m", rows |-> r] : r \in RowSets}
  \cup {[op |-> "by", m |-> "m", st |-> "hey"], [op |-> "stop", m |-> "m"], [op |-> "off", m |-> "m"], [op |-> "on", m |-> "m"]}
  \cup {[op |-> o, m |-> "m", st |-> s] : o \in {"dis", "en", "stopBy"}, s \in {"exit"}}
Init == \E c \in Confs0 : st = Anim0([conf |-> [m |-> c]]) /\ n = 0 /\ hist = IF Emit THEN <<[op |-> "reset", cfg |-> [conf |-> [m |-> c]]]>> ELSE <<>>
H(e) == hist' = IF Emit THEN Append(hist, e) ELSE hist
Act == \E e \in Acts : st' = StepTo(st, e) /\ H(e)
Frame == \E dt \in {60, 120} : LET a == Aged(st, dt) IN
  \E E \in (IF Emit THEN {Must(a)} ELSE {S \in SUBSET May(a) : Must(a) \subseteq S}) : st' = EndSome(a, E) /\ H([op |-> "frame", dt |-> dt])
Next == n < MaxOps /\ n' = n + 1 /\ (Act \/ Frame)
Spec == Init /\ [][Next]_<<st, n, hist>>
View == <<st, n>>
Inv == AnimInv(st)
Safe == /\ \A a, b \in st.an : Key(a) = Key(b) => a = b                         \* one animation per configuration and element
        /\ \A a \in st.an : Old(st, a.m, a.k) # <<>>                             \* nothing animates a removed element
        /\ \A i, j \in 1..Len(st.els["m"]) : st.els["m"][i].k = st.els["m"][j].k => i = j
        /\ ~st.on["m"] => AnimsOf(st, "m") = {}
(* if nothing but time happens, every exiting element leaves and everything comes to rest *)
FairSpec == Init /\ [][Next \/ (Frame /\ n' = n)]_<<st, n, hist>> /\ WF_<<st, n, hist>>(Frame /\ n' = n)
Rest == (n = MaxOps) ~> (st.an = {} /\ \A i \in 1..Len(st.els["m"]) : st.els["m"][i].ds # Exit)
Done == n = MaxOps => st.an = {} \/ TRUE
EmitAll == n' = MaxOps => CSVWrite("%1$s", <<ToJson(hist' \o <<[op |-> "frame", dt |-> 1000]>>)>>, IOEnv.OPSOUT)
==============================================================================
