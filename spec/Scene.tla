-------------------------------- MODULE Scene --------------------------------
(* The scene graph of a view is a function of its current specification:      *)
(*   nodes : marks in creation order [id, t, p, src, x, y, f, z, c, q]         *)
(*           p = parent group ("root"), src = data ("" for none),             *)
(*           x = encoder, y, f = constants, z = zIndex, c = clip, q = interactive (leaf marks) *)
(*   data, sig, sc : rows of the data sets, value of the signal, scale factor  *)
(* However it was reached (updateSpec, marks added and removed, re-used or     *)
(* not), a run draws exactly the marks of the specification in tree order.     *)
EXTENDS Util
MarkIds == {"m1", "m2", "m3", "m4", "m5", "m6", "g1", "g2"}
NAI == -99999999
Scene0(cfg) == [data |-> [d1 |-> <<>>, d2 |-> <<>>], sig |-> 0, sc |-> 1, nodes |-> <<>>]

Kids(s, p) == Filter(s.nodes, LAMBDA m : m.p = p)
Node(s, id) == Filter(s.nodes, LAMBDA m : m.id = id)
Has1(s, id) == Node(s, id) # <<>>
RowsOf(s, m) == IF m.t = "group" THEN <<[k |-> "", v |-> 0]>> ELSE IF m.src = "" THEN <<[k |-> "key", v |-> 0]>> ELSE s.data[m.src]
XVal(s, e, row) == CASE e.t = "const" -> e.c [] e.t = "field" -> row.v [] e.t = "sig" -> s.sig [] e.t = "sc" -> row.v * s.sc
El(s, m, row) == [k |-> row.k, x |-> XVal(s, m.x, row), y |-> m.y, f |-> m.f, q |-> m.q]
RECURSIVE Draw(_, _)
Draw(s, p) == Map(Kids(s, p), LAMBDA m :
  [n |-> m.id, t |-> m.t, z |-> m.z, c |-> m.c, els |-> Map(RowsOf(s, m), LAMBDA r : El(s, m, r)),
   kids |-> IF m.t = "group" THEN Draw(s, m.id) ELSE <<>>])

(* a group is removed together with its marks *)
RECURSIVE Within(_, _, _)
Within(s, i, a) == i = a \/ (Has1(s, i) /\ Node(s, i)[1].p # "root" /\ Within(s, Node(s, i)[1].p, a))

SceneStep(s, e) ==
  CASE e.op = "spec"   -> [s EXCEPT !.nodes = e.nodes, !.data = e.data, !.sig = e.sig, !.sc = e.sc]
    [] e.op = "add"    -> [s EXCEPT !.nodes = Append(@, e.m)]
    [] e.op = "rm"     -> [s EXCEPT !.nodes = Filter(@, LAMBDA m : ~Within(s, m.id, e.id))]
    [] e.op = "rmall"  -> [s EXCEPT !.nodes = <<>>]
    [] e.op = "rows"   -> [s EXCEPT !.data[e.d] = e.rows]
    [] e.op = "sig"    -> [s EXCEPT !.sig = e.v]
    [] e.op = "sc"     -> [s EXCEPT !.sc = e.v]
    [] e.op = "enc"    -> [s EXCEPT !.nodes = Map(@, LAMBDA m : IF m.id = e.id THEN [m EXCEPT !.x = e.x, !.f = e.f] ELSE m)]
    [] e.op = "z"      -> [s EXCEPT !.nodes = Map(@, LAMBDA m : IF m.id = e.id THEN [m EXCEPT !.z = e.z] ELSE m)]
    [] e.op = "clip"   -> [s EXCEPT !.nodes = Map(@, LAMBDA m : IF m.id = e.id THEN [m EXCEPT !.c = e.c] ELSE m)]
    [] e.op = "inter"  -> [s EXCEPT !.nodes = Map(@, LAMBDA m : IF m.id = e.id THEN [m EXCEPT !.q = e.q] ELSE m)]
    [] OTHER -> s
Types == {"symbol", "rect", "text", "group"}
Reg(s) == [ids |-> Map(s.nodes, LAMBDA m : m.id),
           byid |-> [id \in MarkIds |-> IF Has1(s, id) THEN Node(s, id)[1].t ELSE "none"],
           bytype |-> [t \in Types |-> Map(Filter(s.nodes, LAMBDA m : m.t = t), LAMBDA m : m.id)]]
SceneExplain(s, e) == IF e.op = "run" THEN [scene |-> Draw(s, "root")] ELSE IF e.op = "reg" THEN Reg(s) ELSE [x |-> 0]
SceneAccept(s, e) ==
  CASE e.op = "run" -> e.obs = Draw(s, "root")
    [] e.op = "reg" -> e.obs = Reg(s)
    [] e.op = "threw" -> FALSE
    [] OTHER -> TRUE
SceneInv(s) == /\ Cardinality(Range(Map(s.nodes, LAMBDA m : m.id))) = Len(s.nodes)
               /\ \A m \in Range(s.nodes) : m.p = "root" \/ (\E g \in Range(s.nodes) : g.id = m.p /\ g.t = "group")
==============================================================================
