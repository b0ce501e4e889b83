------------------------------ MODULE Dataflow ------------------------------
(* Propagation of changes through the grammar graph of a View.               *)
(*                                                                           *)
(* A grammar is a node: a source (plain value) or derived, in which case it   *)
(* has several option slots, each naming the grammars it references (with     *)
(* multiplicity).  A node depends on another exactly while at least one of    *)
(* its slots still references it.  A run() is a pass: evaluations are         *)
(* separate steps, in any order the rules below allow.                        *)
(*   node  : id -> [src, c, slots, val]                                       *)
(*   pend  : nodes committed or downstream of an evaluated one               *)
(*   phase : "idle" or "pass";  done : nodes evaluated in this pass           *)
EXTENDS Util
M == 97

SlotDeps(n) == UNION {Range(n.slots[k]) : k \in 1..Len(n.slots)}
Deps(s, x) == IF s.node[x].src THEN {} ELSE SlotDeps(s.node[x])
Ids(s) == DOMAIN s.node
Targets(s, x) == {y \in Ids(s) : x \in Deps(s, y)}
RECURSIVE Closure(_, _)
Closure(s, S) == LET T == S \cup UNION {Targets(s, x) : x \in S}
                 IN IF T = S THEN S ELSE Closure(s, T)
Downstream(s, x) == Closure(s, Targets(s, x))

Weighted(s, q) == SumSeq([i \in 1..Len(q) |-> i * s.node[q[i]].val])
Value(s, x) == LET n == s.node[x] IN
  IF n.src THEN n.c
  ELSE (n.c + SumSeq([k \in 1..Len(n.slots) |-> n.w[k] * Weighted(s, n.slots[k])])) % M

Dataflow0(cfg) == [node |-> [x \in DOMAIN cfg.nodes |->
                      [src |-> cfg.nodes[x].src, c |-> cfg.nodes[x].c, slots |-> cfg.nodes[x].slots,
                       w |-> cfg.nodes[x].w, val |-> 0]],
                   pend |-> DOMAIN cfg.nodes, phase |-> "idle", done |-> {}]

(* ---- commands of the user, between passes *)
SetSource(s, x, v) == [s EXCEPT !.node[x].src = TRUE, !.node[x].c = v, !.node[x].slots = [k \in 1..Len(@) |-> <<>>], !.pend = @ \cup {x}]
SetSlot(s, x, k, q) == [s EXCEPT !.node[x].src = FALSE, !.node[x].slots[k] = q, !.pend = @ \cup {x}]
Derive(s, x, c, q) == [s EXCEPT !.node[x].src = FALSE, !.node[x].c = c, !.node[x].slots[1] = q, !.pend = @ \cup {x}]

(* ---- the pass *)
(* x may be evaluated when nothing it depends on, directly or not, still has to be *)
Ready(s, x) == x \in s.pend /\ \A y \in s.pend \ {x} : x \notin Downstream(s, y)
Evaluate(s, x) == LET t == [s EXCEPT !.node[x].val = Value(s, x)]
                  IN [t EXCEPT !.pend = (s.pend \ {x}) \cup Targets(s, x), !.done = @ \cup {x}]
Begin(s) == [s EXCEPT !.phase = "pass", !.done = {}]
(* plain values have nothing to compute: their evaluation is not observable *)
RECURSIVE Settle(_)
Settle(s) == LET R == {x \in s.pend : s.node[x].src} IN
             IF R = {} THEN s ELSE Settle(Evaluate(s, CHOOSE x \in R : TRUE))
End(s) == [s EXCEPT !.phase = "idle", !.done = {}]

DataflowStep(s, e) ==
  CASE e.op = "src"    -> SetSource(s, e.n, e.v)
    [] e.op = "slot"   -> SetSlot(s, e.n, e.k, e.deps)
    [] e.op = "derive" -> Derive(s, e.n, e.c, e.deps)
    [] e.op = "run"    -> Settle(Begin(s))
    [] e.op = "eval"   -> Evaluate(s, e.n)
    [] e.op = "end"    -> End(s)
    [] OTHER -> s
Values(s) == [x \in Ids(s) |-> s.node[x].val]
DataflowAccept(s, e) ==
  CASE e.op = "eval" -> s.phase = "pass" /\ e.n \in Ids(s) /\ ~s.node[e.n].src /\ Ready(s, e.n)
    [] e.op = "end"  -> s.phase = "pass" /\ s.pend = {} /\ e.obs = Values(s)
    [] e.op = "threw" -> FALSE
    [] OTHER -> s.phase = "idle"
DataflowExplain(s, e) == [phase |-> s.phase, pending |-> s.pend, ready |-> {x \in s.pend : Ready(s, x)}, values |-> Values(s)]

(* ------------------------------------------------------------- properties *)
Consistent(s) == \A x \in Ids(s) : s.node[x].val = Value(s, x)
DataflowInv(s) ==
  (* a node already evaluated in this pass is never pending again: at most once, no glitch *)
  /\ s.phase = "pass" => s.done \cap s.pend = {}
  (* whenever nothing is pending every value equals the function of its current inputs *)
  /\ s.pend = {} => Consistent(s)
  (* in the middle of a pass, nodes neither pending nor downstream of a pending one are already right *)
  /\ s.phase = "pass" => \A x \in Ids(s) \ Closure(s, s.pend) : s.node[x].val = Value(s, x)
==============================================================================
