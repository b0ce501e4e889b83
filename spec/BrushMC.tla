------------------------------ MODULE BrushMC ------------------------------
(* Bounded model of brushes drawn over two marks while data change and interactions come and go.                        *)
EXTENDS Brush, Json, CSV, IOUtils
CONSTANTS MaxLen, Deep, Emit
Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
VARIABLES st, hist, k, mask, used, drawn
El(kk, c, x, y, w, h) == [k |-> kk, c |-> c, x |-> x, y |-> y, w |-> w, h |-> h]
RowSets == {<<El("a", "p", 30, 30, 30, 20), El("b", "q", 80, 40, 10, 60), El("c", "p", 140, 100, 30, 20)>>, <<El("b", "p", 140, 40, 10, 60), El("d", "r", 30, 100, 60, 10)>>, <<>>}
ESets == {<<[k |-> "e", c |-> "p"], [k |-> "f", c |-> "q"]>>, <<[k |-> "f", c |-> "r"], [k |-> "g", c |-> "p"]>>}
Cfgs == {[vb |-> <<0, 0, 240, 180>>, g |-> <<0, 0>>, rx |-> x, rows |-> CHOOSE r \in RowSets : Len(r) = 3, erows |-> CHOOSE r \in ESets : r[1].k = "e"] : x \in (IF Emit THEN {"size", "ends", "flip"} ELSE {"size"})}
O(nm, kd, ty, sel, fn, roc) == [name |-> nm, kind |-> kd, type |-> ty, by |-> "id", sel |-> sel, a |-> IF kd = "brush-active" THEN "sel" ELSE IF kd = "brush-highlight" THEN "hi" ELSE "", b |-> IF kd = "brush-highlight" THEN "lo" ELSE "",
      moved |-> FALSE, roc |-> TRUE, thr |-> 5, ir |-> <<>>, xr |-> <<>>, yr |-> <<>>, fn |-> fn]
Names == <<"n0", "n1", "n2", "n3", "n4", "n5">>
Pts == IF Deep \/ Emit THEN {<<10, 10>>, <<100, 20>>, <<20, 120>>, <<120, 90>>, <<230, 170>>} ELSE {<<10, 10>>, <<100, 90>>, <<230, 170>>}
Mask(ty, a, m, b) ==
  IF ty = "rect" THEN <<a, <<b[1], a[2]>>, b, <<a[1], b[2]>>>> ELSE IF ty = "x" THEN <<<<a[1], 0>>, <<b[1], 0>>, <<b[1], 180>>, <<a[1], 180>>>>
  ELSE IF ty = "y" THEN <<<<0, a[2]>>, <<0, b[2]>>, <<240, b[2]>>, <<240, a[2]>>>> ELSE <<a, m, b>>
Ev(s, i, ty, p) ==
  LET o == s.on[i].o  e0 == [op |-> "brush", name |-> o.name, ty |-> ty, pts |-> p, act |-> <<>>] IN e0
AllDo(s, ty, P(_)) == Fold(LAMBDA z, i : BrushStep(z, Ev(z, i, ty, P(z.on[i].o))), s, [i \in 1..Len(s.on) |-> i])
Log(e) == k' = k + 1 /\ hist' = (IF Emit THEN Append(hist, e) ELSE <<e>>)
Act(e) == st' = BrushStep(st, e) /\ Log(e)
Bind == Len(st.on) < 2 /\ \E kd \in Pick({"brush-active", "brush-highlight", "brush-filter"}) : (\A i \in 1..Len(st.on) : st.on[i].o.kind # kd) /\
  \E ty \in Pick({"rect", "x", "y", "polygon"}), sel \in Pick(IF Emit THEN {<<"S">>, <<"R">>, <<"R", "S">>} ELSE {<<"S">>, <<"R", "S">>}), fn \in Pick(IF kd = "brush-filter" THEN BOOLEAN ELSE {FALSE}) :
    Act([op |-> "bind", o |-> O(Names[1 + used], kd, ty, sel, fn, TRUE)]) /\ used' = (IF Emit THEN used + 1 ELSE 1 - used) /\ drawn' = FALSE /\ UNCHANGED mask
Free6 == Emit => used < 5
Far(a, b) == Abs(a[1] - b[1]) > 12 \/ Abs(a[2] - b[2]) > 12
Draw == \E a \in Pick(Pts), m \in Pick({<<120, 15>>, <<15, 150>>}), b \in Pick(Pts) : Far(a, b) /\
  st' = AllDo(st, "drawEnd", LAMBDA o : Mask(o.type, a, m, b)) /\ Log([op |-> "drag", path |-> <<a, m, b>>, end |-> "pointerup"]) /\ mask' = <<a, m, b>> /\ drawn' = TRUE /\ UNCHANGED used
Clear == \E a \in Pick(Pts) : mask # <<>> /\ st' = AllDo(st, "brushClear", LAMBDA o : <<>>) /\ Log([op |-> "drag", path |-> <<a, a>>, end |-> "pointerup"]) /\ mask' = <<>> /\ drawn' = TRUE /\ UNCHANGED used
Other ==
  \/ \E r \in Pick(RowSets) : Act([op |-> "rows", rows |-> r]) /\ drawn' = FALSE /\ UNCHANGED <<mask, used>>
  \/ \E r \in Pick(ESets) : Act([op |-> "erows", erows |-> r]) /\ drawn' = drawn /\ UNCHANGED <<mask, used>>
  \/ \E i \in Pick(1..Len(st.on)) : Act([op |-> "unbind", v |-> st.on[i].o.name]) /\ used' = (IF Emit THEN used ELSE 1 - (IF Len(st.on) = 2 /\ st.on[3 - i].o.name = "n1" THEN 1 ELSE 0)) /\ drawn' = FALSE /\ UNCHANGED mask
Init == \E c \in Cfgs : st = Brush0(c) /\ k = 0 /\ hist = <<[op |-> "reset", cfg |-> c]>> /\ mask = <<>> /\ used = 0 /\ drawn = FALSE
Finish == Emit /\ k = MaxLen - 1 /\ Act([op |-> "erows", erows |-> CHOOSE r \in ESets : r[1].k = "e"]) /\ UNCHANGED <<mask, used, drawn>>
Next == Finish \/ (k < MaxLen - (IF Emit THEN 1 ELSE 0) /\ ((Free6 /\ Bind) \/ (st.on # <<>> /\ (Draw \/ Clear \/ Other))))
Spec == Init /\ [][Next]_<<st, hist, k, mask, used, drawn>>
View == <<st, k, mask, used, drawn>>
(* ---- laws ---- *)
BrushOK == BrushInv(st)
With(n) == {<<h[1], h[2]>> : h \in {x \in st.has : x[3] = n}}
Sure(o) == {mk \in All(st, o) : Where(o.type, Mask(o.type, mask[1], mask[2], mask[3]), Box(st, mk[1], RowOf(st, mk[2])), mk[1]) = "in"}
(* right after a brush: exactly the elements under it, whatever was brushed before *)
Now == \A i \in 1..Len(st.on) : LET o == st.on[i].o IN (drawn /\ mask # <<>>) =>
  /\ (o.kind = "brush-active" => {mk \in With("sel") : mk[1] \in Range(o.sel)} = Sure(o))
  /\ (o.kind = "brush-highlight" => {mk \in With("hi") : mk[1] \in Range(o.sel)} = Sure(o) /\ {mk \in With("lo") : mk[1] \in Range(o.sel)} = All(st, o) \ Sure(o))
  /\ (o.kind = "brush-filter" /\ ~o.fn => Target(st) = {mk[2] : mk \in Sure(o)})
(* nothing is left of a brush that was cleared *)
Left == \A i \in 1..Len(st.on) : LET o == st.on[i].o IN (drawn /\ mask = <<>>) =>
  /\ {h \in st.has : h[1] \in Range(o.sel) /\ h[3] \in {o.a, o.b}} = {}
  /\ (o.kind = "brush-filter" => ~st.on[i].f.on)
(* a box that holds another box covers at least its elements *)
Wider == \A a, b \in Pts : \A m \in {"S", "R"} : \A i \in 1..Len(st.rows) :
  LET w(c) == Where("rect", Mask("rect", <<10, 10>>, <<0, 0>>, c), Box(st, m, st.rows[i]), m) IN (a[1] <= b[1] /\ a[2] <= b[2] /\ w(a) = "in") => w(b) = "in"
NoFilter == (\A i \in 1..Len(st.on) : st.on[i].o.kind # "brush-filter") => Target(st) = {r.k : r \in Range(st.erows)}
EmitAll == (k' = MaxLen) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
=============================================================================
