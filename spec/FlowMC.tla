------------------------------- MODULE FlowMC -------------------------------
(* Bounded model: small graphs and trees, every node and link is pointed at and left, data changes in between.          *)
EXTENDS Flow, Json, CSV, IOUtils
CONSTANTS MaxLen, Deep, Emit
Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
VARIABLES st, hist, k, fresh
Roots == {"a", "b"}
Mids == {"x", "y"}
Leaves == IF Deep \/ Emit THEN {"p", "q"} ELSE {"p"}
S2 == {<<r, m>> : r \in Roots, m \in Mids}
S3 == {<<r, m, l>> : r \in Roots, m \in Mids, l \in Leaves}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : Len(y) <= Len(z) IN <<x>> \o SeqOf(S \ {x})
RV(i) == IF Emit THEN RandomElement({v \in 1..5 : i > 0}) ELSE 1 + (i % 3)
TreesOf(P2, P3) == LET ps == SeqOf({<<r>> : r \in Roots} \cup {<<"i">>} \cup P2 \cup P3)
                       leaf(p) == ~\E i \in 1..Len(ps) : Len(ps[i]) = Len(p) + 1 /\ Up(ps[i]) = p IN
                   {[tree |-> TRUE, nodes |-> <<>>, links |-> <<>>, ents |-> [i \in 1..Len(ps) |-> [p |-> ps[i], v |-> IF leaf(ps[i]) THEN RV(i) ELSE IF Len(ps[i]) = 2 /\ ex /\ i % 2 = 0 THEN 20 ELSE None]]] : ex \in (IF Deep \/ Emit THEN BOOLEAN ELSE {FALSE})}
Trees(n) == UNION {UNION {TreesOf(p2, p3) : p3 \in Pick({S \in SUBSET S3 : n > 0 /\ \A p \in S : Up(p) \in p2})} : p2 \in Pick({S \in SUBSET S2 : n > 0})}
Edges == IF Deep \/ Emit THEN {<<"a", "x">>, <<"b", "x">>, <<"a", "y">>, <<"b", "y">>, <<"x", "p">>, <<"y", "p">>, <<"x", "q">>, <<"y", "q">>, <<"a", "p">>, <<"x", "y">>} ELSE {<<"a", "x">>, <<"b", "x">>, <<"x", "p">>, <<"a", "p">>, <<"b", "y">>}
Graphs(n) == {LET es == SeqOf(E) IN [tree |-> FALSE, ents |-> <<>>, nodes |-> IF Emit THEN SeqOf(RandomElement({N \in SUBSET {"a", "b", "x", "y", "p", "q", "i"} : N # {} /\ n > 0 /\ \A e \in E : e[1] \in N /\ e[2] \in N})) ELSE SeqOf({"a", "b", "x", "y", "p", "q", "i"}), links |-> [i \in 1..Len(es) |-> [s |-> es[i][1], t |-> es[i][2], v |-> RV(i)]]] : E \in Pick({S \in SUBSET Edges : n > 0})}
Datas(n) == IF Emit THEN (IF n % 2 = 1 THEN Trees(n) ELSE Graphs(n)) ELSE Trees(n) \cup Graphs(n)
Encs == {<<"hl", "bl">>, <<"hl">>, <<"bl">>}
Cfgs(d) == {[d |-> d, eff |-> f, on |-> o[1], off |-> o[2], encN |-> n, encL |-> m, glyph |-> g] : f \in {"related", "adjacency"},
             o \in (IF Emit THEN {<<"pointerover", "pointerout">>, <<"click", "dblclick">>} ELSE {<<"click", "dblclick">>}), n \in (IF Emit THEN Encs ELSE {<<"hl", "bl">>}), m \in (IF Emit THEN Encs ELSE {<<"hl", "bl">>}), g \in (IF Emit THEN BOOLEAN ELSE {FALSE})}
Do(e) == st' = FlowStep(st, e) /\ k' = k + 1 /\ hist' = (IF Emit THEN Append(hist, e) ELSE <<e>>) /\ fresh' = (IF e.op = "data" THEN FALSE ELSE IF e.ty = st.cfg.on /\ e.x # <<>> THEN TRUE ELSE fresh)
Init == \E i \in (IF Emit THEN 1..400 ELSE {1}) : \E d \in Datas(i) : \E c \in Pick({x \in Cfgs(d) : i > 0}) : st = Flow0(c) /\ k = 0 /\ hist = <<[op |-> "reset", cfg |-> c]>> /\ fresh = TRUE
Ons == IF Emit /\ RandomElement({x \in 1..3 : k >= 0}) > 1 THEN {st.cfg.on} ELSE {st.cfg.on, st.cfg.off}
Step ==
  \/ \E x \in Pick(Els(st.d) \cup {<<>>}), ty \in Pick(Ons) : Do([op |-> "ev", ty |-> ty, x |-> x])
  \/ st.act # <<>> /\ Do([op |-> "ev", ty |-> st.cfg.off, x |-> st.act])
  \/ (Emit \/ Deep) /\ (Emit => RandomElement({x \in 1..4 : k >= 0}) = 1) /\ \E d \in (IF Emit THEN (IF st.d.tree THEN Trees(k + 1) ELSE Graphs(k + 1)) ELSE {[st.d EXCEPT !.links = IF @ = <<>> THEN @ ELSE Tail(@)]}) : Do([op |-> "data", d |-> d])
Next == (k < MaxLen - (IF Emit THEN 1 ELSE 0) /\ Step) \/ (Emit /\ k = MaxLen - 1 /\ Do([op |-> "ev", ty |-> st.cfg.off, x |-> st.act]))
Spec == Init /\ [][Next]_<<st, hist, k, fresh>>
View == <<st, k, fresh>>
FlowOK == FlowInv(st)
EndsToo == fresh => Ends2(st)
(* in a graph two nodes that are related see each other *)
BothWays == (~st.d.tree /\ st.cfg.eff = "related" /\ k = 0) => \A a, b \in Nodes(st.d) : (a \in WithNodes(InGraph(st.d, <<b>>), <<b>>)) = (b \in WithNodes(InGraph(st.d, <<a>>), <<a>>))
(* all of a node's flow is seen at every level above it *)
Level(l) == IF l[1] \in Roots THEN 2 ELSE 3
UpFlow == (st.d.tree /\ k = 0 /\ \A i \in 1..Len(st.d.ents) : st.d.ents[i].v # 20) => \A n \in Nodes(st.d) :
  LET own == {i \in 1..Len(st.d.ents) : st.d.ents[i].p[Len(st.d.ents[i].p)] = n /\ Len(st.d.ents[i].p) > 1}
      ls == InTree(st.d, <<n>>)
      RECURSIVE tot(_)
      tot(S) == IF S = {} THEN 0 ELSE LET l == CHOOSE x \in S : TRUE IN ls[l][1] + tot(S \ {l}) IN
  \A lv \in {j \in {2, 3} : \A i \in own : j <= Len(st.d.ents[i].p)} : own # {} => tot({l \in DOMAIN ls : Level(l) = lv}) = Sum(st.d, own)
EmitAll == (k' = MaxLen) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
=============================================================================
