----------------------------- MODULE ViewNavMC -----------------------------
(* Bounded model of gestures over a view whose dimensions have windows of their own.                                   *)
EXTENDS ViewNav, Json, CSV, IOUtils
CONSTANTS MaxLen, Deep, Emit
Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
VARIABLES st, hist, k, last
R(i) == [k |-> <<"a", "b", "c", "d", "e", "f">>[i], rx |-> <<100000, 300000, 500000, 700000, 200000, 800000>>[i], ry |-> <<800000, 200000, 500000, 100000, 400000, 800000>>[i]]
RowSets == {<<R(1), R(2), R(3), R(4)>>, <<R(6), R(2), R(5)>>}
Dim(m, z, sc, lo, hi, fl) == [mode |-> m, size |-> IF m \in {"range", "fn", "none"} THEN 1 ELSE z, sc |-> sc, lo |-> lo, hi |-> hi, flip |-> fl]
Off == Dim("off", 100, "linear", 0, U, FALSE)
Modes(kind) == {"factor", "range", "fn"} \cup (IF kind = "zoom" THEN {"scale", "data", "none", "comp"} ELSE IF kind = "roam" THEN {"scale", "data", "none"} ELSE {"bar"})
Dims(kind) == {Dim(m, z, sc, w[1], w[2], fl) : m \in Modes(kind), z \in {200, 160}, sc \in {"linear", "band"}, w \in {<<200000, 600000>>, <<500000, 1000000>>}, fl \in BOOLEAN}
SmallDims == {Dim("factor", 200, "linear", 200000, 600000, FALSE), Dim("data", 200, "linear", 200000, 600000, FALSE), Dim("range", 200, "linear", 200000, 600000, FALSE), Dim("scale", 200, "linear", 0, U, FALSE)}
Z(on, rt, r) == [on |-> on, rt |-> rt, rate |-> r]
G(on, rt, rev) == [on |-> on, rt |-> rt, rev |-> rev]
Kinds == {"zoom", "drag", "scroll", "roam"}
Cfg(kd, rt, rt2, rev, rate, parts, dx, dy, api) ==
  [kind |-> kd, x |-> dx, y |-> dy, api |-> api, rows |-> CHOOSE r \in RowSets : Len(r) = 4,
   zoom |-> Z(kd = "zoom" \/ (kd = "roam" /\ "zoom" \in parts), rt, rate),
   drag |-> G(kd = "drag" \/ (kd = "roam" /\ "drag" \in parts), rt2, rev),
   scroll |-> G(kd = "scroll" \/ (kd = "roam" /\ "scroll" \in parts), rt, rev)]
Roams(dy) == {Cfg(kd, rt, rt, FALSE, <<1, 1>>, {"zoom", "drag", "scroll"}, dx, dy, "id") : kd \in (IF Deep THEN Kinds ELSE {"roam"}), rt \in BOOLEAN, dx \in SmallDims}
Log(e) == k' = k + 1 /\ hist' = (IF Emit THEN Append(hist, e) ELSE <<e>>)
Do(e) == st' = ViewNavStep(st, e) /\ Log(e) /\ last' = [op |-> e.op, w |-> st.w, e |-> e, on |-> st.on]
Way == IF Emit THEN {-90, -40, -10, 0, 25, 50, 110} ELSE IF Deep THEN {-100, 40} ELSE {-100, 40}
Wheel == \/ \E f \in Pick(IF Emit THEN {<<1, 2>>, <<1, 2>>, <<2, 3>>, <<3, 2>>, <<2, 1>>, <<4, 5>>} ELSE {<<1, 2>>, <<2, 1>>}) : Do([op |-> "wheel", f |-> f, dx |-> 0, dy |-> 0])
         \/ \E x \in Pick(Way), y \in Pick(IF Emit THEN Way ELSE {0, 40}) : Do([op |-> "wheel", f |-> <<>>, dx |-> x, dy |-> y])
P == IF Emit THEN {1, 1, 1, 2} ELSE {1}
Pos == IF Emit THEN {20, 55, 90, 130, 180} ELSE {20, 90}
Point(o) == \E x \in Pick(Pos), y \in Pick(IF Emit THEN Pos ELSE {20}), p \in Pick(P) : Do([op |-> o, x |-> x, y |-> y, p |-> IF o = "up" /\ st.ds # <<>> THEN st.ds[3] ELSE p])
Main == Wheel \/ (st.cfg.drag.on /\ (Point("move") \/ (st.ds = <<>> /\ Point("down")))) \/ Point("up") \/ (st.cfg.zoom.on /\ Do([op |-> "dbl"]))
Half == IF Emit THEN RandomElement(1..4) = 1 ELSE TRUE
Rest == (st.on /\ st.ds = <<>> /\ Half /\ Do([op |-> "unbind"])) \/ (~st.on /\ Do([op |-> "bind"])) \/ (Half /\ \E r \in Pick(RowSets) : Do([op |-> "rows", rows |-> r]))
Start(c) == st = ViewNav0(c) /\ k = 0 /\ hist = <<[op |-> "reset", cfg |-> c]>> /\ last = [op |-> "", w |-> [d \in D2 |-> Whole], e |-> [op |-> ""], on |-> TRUE]
Some(i) == \E kd \in Pick({z \in Kinds : i > 0}) : \E rt \in Pick({z \in BOOLEAN : i > 0}), rt2 \in Pick({z \in BOOLEAN : i > 0}), rev \in Pick({z \in BOOLEAN : i > 0}), rate \in Pick({z \in {<<1, 1>>, <<1, 2>>} : i > 0}), api \in Pick({z \in {"id", "obj"} : i > 0}),
  parts \in Pick({z \in {{"zoom", "drag", "scroll"}, {"zoom", "drag"}, {"drag", "scroll"}} : i > 0}), dx \in Pick({z \in Dims(kd) : i > 0}) : \E dy \in Pick({z \in {Off} \cup Pick({v \in Dims(kd) : i > 0}) : i > 0}) :
  Start(Cfg(kd, rt, rt2, rev, rate, parts, dx, dy, api))
Init == IF Emit THEN \E i \in 1..300 : Some(i) ELSE \E dy \in (IF Deep THEN {Off, Dim("data", 200, "linear", 0, U, FALSE)} ELSE {Off}) : \E c \in Roams(dy) : Start(c)
Next == (k < MaxLen - (IF Emit THEN 1 ELSE 0) /\ (Main \/ Rest)) \/ (Emit /\ k = MaxLen - 1 /\ Do([op |-> "rows", rows |-> CHOOSE r \in RowSets : Len(r) = 3]))
Spec == Init /\ [][Next]_<<st, hist, k, last>>
View == <<st, k, last>>
(* ---- laws ---- *)
NavOK == ViewNavInv(st)
Width(w) == w[2] - w[1]
Live1 == {d \in Live(st.cfg) : TRUE}
(* moving keeps the width of a window *)
MoveKeeps == last.op = "move" => \A d \in Live1 : Width(st.w[d]) = Width(last.w[d])
(* a zoom keeps its middle and scales its width, unless an end is in the way; it never loses what it showed when it grows *)
ZoomScales == (last.op = "wheel" /\ last.e.f # <<>> /\ st.cfg.zoom.on /\ st.cfg.zoom.rt /\ last.on) => \A d \in Live1 :
  /\ (last.e.f[1] > last.e.f[2] => st.w[d][1] <= last.w[d][1] /\ st.w[d][2] >= last.w[d][2])
  /\ (last.e.f[1] < last.e.f[2] => st.w[d][1] >= last.w[d][1] /\ st.w[d][2] <= last.w[d][2])
  /\ (st.w[d][1] > 0 /\ st.w[d][2] < U /\ Width(last.w[d]) > 1000 => Abs((st.w[d][1] + st.w[d][2]) - (last.w[d][1] + last.w[d][2])) <= 2 /\ Abs(Width(st.w[d]) * last.e.f[2] - Width(last.w[d]) * last.e.f[1]) <= 8)
(* nothing moves unless something asks for it *)
Still == (last.op \in {"down", "rows"} \/ ~last.on) => \A d \in Live1 : last.op # "bind" => st.w[d] = last.w[d]
(* what was put off is done once: a second end changes nothing *)
Once == \A z \in {ViewNavStep(st, [op |-> "up", x |-> 20, y |-> 20, p |-> 1])} : ViewNavStep(z, [op |-> "up", x |-> 90, y |-> 20, p |-> 1]).w = z.w
(* a drag in two moves goes as far as in one, when no end is in the way *)
Two == (st.on /\ st.cfg.drag.on /\ st.cfg.drag.rt /\ st.ds = <<>>) =>
  LET D0 == ViewNavStep(st, [op |-> "down", x |-> 50, y |-> 50, p |-> 1])
      M(s, x) == ViewNavStep(s, [op |-> "move", x |-> x, y |-> 50, p |-> 1])
      a == M(M(D0, 60), 80)  b == M(D0, 80)
  IN \A d \in Live1 : Abs(a.w[d][1] - b.w[d][1]) <= 2 /\ (M(a, 50).w[d] = st.w[d] \/ b.w[d][2] = U)
EmitAll == (k' = MaxLen) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
=============================================================================
