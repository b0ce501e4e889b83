------------------------------- MODULE SceneMC -------------------------------
EXTENDS Scene, Json, CSV, IOUtils
CONSTANTS MaxOps, Emit
VARIABLES st, n, hist
X(t) == [t |-> t, c |-> 7]
M(id, t, p, src, x, z) == [id |-> id, t |-> t, p |-> p, src |-> src, x |-> x, y |-> 2, f |-> "red", z |-> z, c |-> FALSE, q |-> TRUE]
G(id, p) == [id |-> id, t |-> "group", p |-> p, src |-> "", x |-> X("const"), y |-> 1, f |-> "blue", z |-> 0, c |-> FALSE, q |-> TRUE]
D1 == [d1 |-> <<[k |-> "a", v |-> 3]>>, d2 |-> <<[k |-> "a", v |-> 5], [k |-> "b", v |-> 6]>>]
D2 == [d1 |-> <<[k |-> "b", v |-> 4], [k |-> "a", v |-> 3]>>, d2 |-> <<>>]
Trees == {<<M("m1", "symbol", "root", "d1", X("field"), 0), M("m2", "rect", "root", "d2", X("sc"), 1)>>,
          <<M("m2", "rect", "root", "d1", X("sig"), 0), M("m1", "symbol", "root", "d2", X("field"), 2)>>,
          <<G("g1", "root"), M("m1", "symbol", "g1", "d1", X("field"), 0), M("m2", "rect", "root", "d2", X("sc"), 0)>>,
          <<M("m2", "symbol", "root", "", X("const"), 0), G("g1", "root"), G("g2", "g1"), M("m1", "symbol", "g2", "d2", X("sig"), 1), M("m3", "text", "g1", "d1", X("const"), 0)>>,
          <<M("g1", "rect", "root", "d1", X("field"), 0)>>}
Adds == {M("m1", "symbol", "root", "d1", X("field"), 0), M("m3", "text", "g1", "d2", X("sc"), 1), G("g1", "root")}
Ops == {[op |-> "spec", nodes |-> t, data |-> d, sig |-> 4, sc |-> 2] : t \in Trees, d \in {D1, D2}}
  \cup {[op |-> "add", m |-> m] : m \in Adds}
  \cup {[op |-> "rm", id |-> i] : i \in {"m1", "m2", "g1"}}
  \cup {[op |-> "rmall"], [op |-> "reg"], [op |-> "sig", v |-> 9], [op |-> "sc", v |-> 3], [op |-> "z", id |-> "m1", z |-> 3], [op |-> "clip", id |-> "m1", c |-> TRUE], [op |-> "clip", id |-> "m1", c |-> FALSE], [op |-> "inter", id |-> "m2", q |-> FALSE], [op |-> "inter", id |-> "m2", q |-> TRUE], [op |-> "enc", id |-> "m2", x |-> X("field"), f |-> "blue"]}
  \cup {[op |-> "rows", d |-> "d1", rows |-> r] : r \in {<<>>, D2.d1}}
  \cup {[op |-> "run", reuse |-> r] : r \in BOOLEAN}
Leaf(s, id) == Kids(s, id) = <<>>
Enabled(s, e) == CASE e.op = "add" -> ~Has1(s, e.m.id) /\ (e.m.p = "root" \/ (Has1(s, e.m.p) /\ Node(s, e.m.p)[1].t = "group"))
                   [] e.op = "rm" -> Has1(s, e.id)
                   [] e.op \in {"z", "clip", "inter"} -> Has1(s, e.id) /\ Node(s, e.id)[1].t # "group"
                   [] e.op = "enc" -> Has1(s, e.id) /\ Node(s, e.id)[1].src # ""
                   [] OTHER -> TRUE
Start == [op |-> "spec", nodes |-> <<>>, data |-> D1, sig |-> 4, sc |-> 1]
Init == st = SceneStep(Scene0([x |-> 0]), Start) /\ n = 0 /\ hist = IF Emit THEN <<[op |-> "reset", cfg |-> [x |-> 0]], Start>> ELSE <<>>
Next == n < MaxOps /\ \E e \in Ops : Enabled(st, e) /\ st' = SceneStep(st, e) /\ n' = n + 1 /\ hist' = IF Emit THEN Append(hist, e) ELSE hist
Spec == Init /\ [][Next]_<<st, n, hist>>
View == <<st, n>>
Inv == SceneInv(st)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE <<q[1].n>> \o Flat(q[1].kids) \o Flat(Tail(q))
(* every mark is drawn exactly once, inside its group *)
Once == LET f == Flat(Draw(st, "root")) IN Len(f) = Len(st.nodes) /\ Range(f) = Range(Map(st.nodes, LAMBDA m : m.id))
(* removing the last mark and adding it again changes nothing; an updateSpec erases the history *)
Laws == /\ \A m \in Range(st.nodes) : m = st.nodes[Len(st.nodes)] /\ Leaf(st, m.id) =>
              SceneStep(SceneStep(st, [op |-> "rm", id |-> m.id]), [op |-> "add", m |-> m]) = st
        /\ \A e \in Ops : e.op = "spec" => SceneStep(st, e) = SceneStep(Scene0([x |-> 0]), e)
EmitAll == n' = MaxOps => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
==============================================================================
