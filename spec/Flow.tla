-------------------------------- MODULE Flow --------------------------------
(* The highlight of a sankey chart. Under the pointer a node or a link stands out together with what flows through it,  *)
(* everything else is blurred; every link shows the part of its value that this flow takes. Leaving the element that    *)
(* stands out takes it all back. The data is a graph (nodes, links) or a tree of branches, whose nodes meet by key.     *)
EXTENDS Util
None == -99999999
(* ---- trees: entries [p |-> keys from the root, v |-> value or None] ---- *)
Up(p) == SubSeq(p, 1, Len(p) - 1)
RECURSIVE Worth(_, _)
Worth(d, i) == IF d.ents[i].v # None THEN d.ents[i].v ELSE LET ch == SelectSeq([j \in 1..Len(d.ents) |-> j], LAMBDA j : Len(d.ents[j].p) > 1 /\ Up(d.ents[j].p) = d.ents[i].p) IN SumSeq([n \in 1..Len(ch) |-> Worth(d, ch[n])])
Ends(p) == <<p[Len(p) - 1], p[Len(p)]>>
EntsOf(d, l) == {i \in 1..Len(d.ents) : Len(d.ents[i].p) > 1 /\ Ends(d.ents[i].p) = l}
RECURSIVE Sum(_, _)
Sum(d, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN Worth(d, i) + Sum(d, S \ {i})
(* ---- nodes and links ---- *)
Nodes(d) == IF d.tree THEN {d.ents[i].p[Len(d.ents[i].p)] : i \in 1..Len(d.ents)} ELSE Range(d.nodes)
Links(d) == IF d.tree THEN {Ends(d.ents[i].p) : i \in {j \in 1..Len(d.ents) : Len(d.ents[j].p) > 1}} ELSE {<<d.links[i].s, d.links[i].t>> : i \in 1..Len(d.links)}
RECURSIVE Reach(_, _, _)
Reach(L, S, dir) == LET N == S \cup {l[3 - dir] : l \in {x \in L : x[dir] \in S}} IN IF N = S THEN S ELSE Reach(L, N, dir)
All1(S) == [l \in S |-> <<1, 1>>]
(* what stands out with node x[1] or link x: links with their part, a pair num / den *)
IsNode(x) == Len(x) = 1
Adjacent(d, x) == All1({l \in Links(d) : IF IsNode(x) THEN x[1] \in {l[1], l[2]} ELSE l = x})
InGraph(d, x) == IF ~IsNode(x) THEN Adjacent(d, x) ELSE LET L == Links(d) IN All1({l \in L : l[1] \in Reach(L, {x[1]}, 1) \/ l[2] \in Reach(L, {x[1]}, 2)})
InTree(d, x) ==
  LET n == x[Len(x)] \* the flow that goes on from the node, or from the end of the link
      down(l) == {i \in EntsOf(d, l) : n \in Range(Up(d.ents[i].p))}
      via == IF IsNode(x) THEN UNION {EntsOf(d, l) : l \in {y \in Links(d) : y[2] = n}} ELSE EntsOf(d, x)
      upto(i) == IF IsNode(x) THEN d.ents[i].p ELSE Up(d.ents[i].p)
      up(l) == {i \in via : \E j \in 1..(Len(upto(i)) - 1) : <<upto(i)[j], upto(i)[j + 1]>> = l}
      S == {l \in Links(d) : l = x \/ down(l) # {} \/ up(l) # {}} IN
  [l \in S |-> IF l = x THEN <<1, 1>> ELSE <<Sum(d, IF down(l) # {} THEN down(l) ELSE up(l)), Sum(d, EntsOf(d, l))>>]
Stands(c, d, x) == IF c.eff = "adjacency" THEN Adjacent(d, x) ELSE IF d.tree /\ Links(d) # {} THEN InTree(d, x) ELSE InGraph(d, x)
WithNodes(ls, x) == Range(x) \cup {l[1] : l \in DOMAIN ls} \cup {l[2] : l \in DOMAIN ls}
(* ---- the state: every element's state and the part of a link ---- *)
Plain == [st |-> "", r |-> <<0, 1>>]
Els(d) == {<<n>> : n \in Nodes(d)} \cup Links(d)
Flow0(cfg) == [cfg |-> cfg, d |-> cfg.d, has |-> [x \in Els(cfg.d) |-> Plain], act |-> <<>>]
Hit(s, x) ==
  LET c == s.cfg  ls == Stands(c, s.d, x)  ns == WithNodes(ls, x)
      one(y) == IF IsNode(y) THEN (IF y[1] \in ns THEN [st |-> IF "hl" \in Range(c.encN) THEN "hl" ELSE "", r |-> <<0, 1>>] ELSE [st |-> IF "bl" \in Range(c.encN) THEN "bl" ELSE "", r |-> <<0, 1>>])
                ELSE IF y \in DOMAIN ls THEN [st |-> "hl", r |-> ls[y]] ELSE [st |-> IF "bl" \in Range(c.encL) THEN "bl" ELSE "", r |-> <<0, 1>>] IN
  [s EXCEPT !.has = [y \in Els(s.d) |-> one(y)], !.act = x]
FlowStep(s, e) ==
  IF e.op = "data" THEN [s EXCEPT !.d = e.d, !.has = [x \in Els(e.d) |-> IF x \in DOMAIN s.has THEN s.has[x] ELSE Plain], !.act = IF @ \in Els(e.d) THEN @ ELSE <<>>]
  ELSE IF e.op = "ev" THEN
    (IF e.x = <<>> THEN s \* the stage, or an element of another mark
     ELSE IF e.ty = s.cfg.on THEN Hit(s, e.x)
     ELSE IF e.ty = s.cfg.off /\ e.x = s.act THEN [s EXCEPT !.has = [y \in DOMAIN @ |-> Plain]]
     ELSE s)
  ELSE s
(* ---- what the chart shows ---- *)
Near(o, r, st) == IF st # "hl" THEN o = None ELSE LET v == o * r[2] - 1000 * r[1] IN v <= r[2] /\ -v <= r[2]
Shown(s, o) == /\ o.x \in DOMAIN s.has
               /\ o.st = (IF s.has[o.x].st = "" THEN <<>> ELSE <<s.has[o.x].st>>)
               /\ (IF IsNode(o.x) THEN o.r = None ELSE Near(o.r, s.has[o.x].r, s.has[o.x].st))
FlowAccept(s, e) ==
  LET q == FlowStep(s, e) IN e.op \in {"data", "ev"} /\ {e.obs[i].x : i \in 1..Len(e.obs)} = DOMAIN q.has /\ Len(e.obs) = Cardinality(DOMAIN q.has) /\ \A i \in 1..Len(e.obs) : Shown(q, e.obs[i])
FlowExplain(s, e) ==
  IF e.op = "threw" THEN [want |-> {}, extra |-> {<<"an error">>}]
  ELSE LET q == FlowStep(s, e) IN [want |-> {<<x, q.has[x]>> : x \in {y \in DOMAIN q.has : ~\E i \in 1..Len(e.obs) : e.obs[i].x = y /\ Shown(q, e.obs[i])}}, extra |-> {e.obs[i].x : i \in 1..Len(e.obs)} \ DOMAIN q.has]
(* ---- invariants: a part is a part; both ends of a link that stands out do so too; only one of the two states ---- *)
(* holds as long as the data does not change under a highlight *)
Ends2(s) == "hl" \in Range(s.cfg.encN) => \A l \in DOMAIN s.has : (~IsNode(l) /\ s.has[l].st = "hl") => (s.has[<<l[1]>>].st = "hl" /\ s.has[<<l[2]>>].st = "hl")
FlowInv(s) ==
  /\ \A x \in DOMAIN s.has : s.has[x].r[1] >= 0 /\ s.has[x].r[1] <= s.has[x].r[2] /\ s.has[x].r[2] > 0
=============================================================================
