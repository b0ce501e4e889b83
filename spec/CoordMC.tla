------------------------------ MODULE CoordMC -------------------------------
(* Bounded model: every short history of settings of a coordinate or of a view placed by one; source of behaviours. *)
EXTENDS Coord, Json, CSV, IOUtils
CONSTANTS MaxSets, MaxOps, Emit
VARIABLES st, hist, n, k
Tr(p) == [t |-> "translate", p |-> p]
Ro(q) == [t |-> "rotate", k |-> q]
Sc(p) == [t |-> "scale", p |-> p]
Tp == [t |-> "transpose"]
Lists == {<<>>, <<Tp>>, <<Tr(<<5, 7>>)>>, <<Ro(1)>>, <<Sc(<<2, 3>>)>>, <<Tr(<<5, 7>>), Ro(1)>>, <<Ro(3), Tr(<<5, 7>>)>>, <<Tr(<<5, -7>>), Sc(<<-1, 2>>)>>, <<Sc(<<2, 1>>), Tr(<<1, 2>>), Tp>>,
          <<Tp, Ro(2), Sc(<<1, 3>>)>>, <<Tr(<<3, 4>>), Ro(1), Sc(<<2, 1>>), Tp>>, <<Tp, Tr(<<2, 9>>), Tp>>}
Sets(t) == {[op |-> "end", p |-> p] : p \in {<<100, 60>>, <<40, 200>>}} \cup {[op |-> "apply", ts |-> l] : l \in Lists}
   \cup (IF t = "polar" THEN {[op |-> "origin", p |-> <<30, 20>>], [op |-> "angle", p |-> <<0, 1>>], [op |-> "angle", p |-> <<3, 1>>], [op |-> "radius", p |-> <<50, 20>>], [op |-> "radius", p |-> <<0, 80>>]}
         ELSE {[op |-> "start", p |-> <<10, 30>>]})
Q(t) == LET u == IF t = "polar" THEN 3 ELSE 6 IN
   <<[op |-> "conv", form |-> "xy", u |-> <<u>>, v |-> <<2>>], [op |-> "conv", form |-> "arr", u |-> <<1>>, v |-> <<u>>], [op |-> "conv", form |-> "xy", u |-> <<1, 2>>, v |-> <<2>>],
     [op |-> "back", u |-> u, v |-> 4], [op |-> "tr"], [op |-> "range", dim |-> "x", sub |-> FALSE, rev |-> FALSE], [op |-> "range", dim |-> "1", sub |-> TRUE, rev |-> TRUE],
     [op |-> "vis", dim |-> "theta", sub |-> TRUE, rev |-> FALSE], [op |-> "vis", dim |-> "y", sub |-> FALSE, rev |-> FALSE],
     [op |-> "axis", dim |-> "0", sub |-> FALSE, rev |-> TRUE, base |-> <<>>], [op |-> "axis", dim |-> "r", sub |-> TRUE, rev |-> FALSE, base |-> <<>>], [op |-> "axis", dim |-> "r", sub |-> TRUE, rev |-> TRUE, base |-> <<2>>]>>
C(v) == [v |-> v, s |-> FALSE]
S(v) == [v |-> v, s |-> TRUE]
Rows1 == <<[k |-> 1, x |-> 1, y |-> 5, x1 |-> 2], [k |-> 2, x |-> 3, y |-> 8, x1 |-> 0]>>
Rows2 == <<[k |-> 2, x |-> 2, y |-> 9, x1 |-> 1], [k |-> 3, x |-> 0, y |-> 6, x1 |-> 3]>>
Base == [start |-> C(<<0, 0>>), end |-> C(<<100, 60>>)]
Views == { [kind |-> "view", type |-> t, conf |-> Base, rows |-> Rows1, sig |-> 1, enc |-> e] : t \in {"cartesian", "polar"}, e \in {"enter", "update"} }
Confs(t) == {[translate |-> S(<<0, 4>>)], [scale |-> C(<<2, 3>>)], [rotate |-> S(1)], [end |-> S(<<0, 80>>)]}
   \cup (IF t = "polar" THEN {[origin |-> C(<<20, 30>>)]} ELSE {[transpose |-> S(TRUE)]})
VOps(t) == {[op |-> "conf", conf |-> f] : f \in Confs(t)} \cup {[op |-> "rows", rows |-> Rows2], [op |-> "sig", v |-> 2], [op |-> "sig", v |-> 3], [op |-> "run"],
           [op |-> "spec", type |-> "polar", conf |-> Base, enc |-> "enter"], [op |-> "spec", type |-> "cartesian", conf |-> [rotate |-> C(3)], enc |-> "update"]}
   \cup {[op |-> "drop", f |-> f] : f \in DOMAIN st.conf \cap {"translate", "rotate", "scale", "transpose"}}
Init == /\ \E c \in {[kind |-> "api", type |-> t] : t \in {"cartesian", "polar"}} \cup Views : st = Coord0(c) /\ hist = <<[op |-> "reset", cfg |-> c]>>
        /\ n = 0 /\ k = 0
Add(e) == hist' = IF Emit THEN hist \o e ELSE <<e[Len(e)]>>
Api == /\ st.kind = "api" /\ n < MaxSets
       /\ \E e \in Sets(st.c.type) : /\ n = 0 => e.op \in {"end", "radius", "start"}
                                     /\ st' = CoordStep(st, e) /\ st' # st /\ n' = n + 1 /\ k' = 0 /\ Add(<<e>> \o Q(IF Transposed(st'.c) THEN "x" ELSE st.c.type))
View0 == /\ st.kind = "view" /\ n < MaxSets + 1
         /\ \E e \in VOps(st.c.type) : /\ n = 0 => e.op = "run"
                                       /\ e.op # "run" => CoordStep(st, e) # st /\ k < MaxOps
                                       /\ e.op = "run" => hist[Len(hist)].op # "run"
                                       /\ e.op = "spec" => st.ran
                                       /\ st' = CoordStep(st, e) /\ n' = (IF e.op = "run" THEN n + 1 ELSE n) /\ k' = (IF e.op = "run" THEN 0 ELSE k + 1) /\ Add(<<e>>)
Next == Api \/ View0
Spec == Init /\ [][Next]_<<st, hist, n, k>>
(* the coordinate of a view is that of its specification: configuring it again changes nothing *)
Stable == st.kind = "view" /\ st.ran /\ hist[Len(hist)].op = "run" => Configured(st) = st.c
Inv == CoordInv(st) /\ Stable
View == <<st, n, k, hist[Len(hist)].op>>
EmitAll == (n' = MaxSets /\ n' > n) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
==============================================================================
