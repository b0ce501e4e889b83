------------------------------ MODULE MotionMC ------------------------------
(* Bounded model: every kind of animation on the marks it is for, with its options; rows come, change and leave.        *)
EXTENDS Motion, Json, CSV, IOUtils
CONSTANTS MaxLen, Deep, Emit
Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
VARIABLES st, hist, k
One(S) == IF Emit THEN {RandomElement(S)} ELSE {CHOOSE x \in S : \A y \in S : y <= x}
Kinds == {<<"growCenter", "rect">>, <<"growWidth", "rect">>, <<"growHeight", "rect">>, <<"growInterval", "interval">>, <<"growAngle", "arc">>, <<"growRadius", "arc">>,
          <<"fade", "symbol">>, <<"scale", "symbol">>, <<"move", "symbol">>, <<"rotate", "symbol">>, <<"clip", "line">>, <<"clip", "area">>,
          <<"growPoints", "line">>, <<"growPoints", "area">>, <<"growPoints", "polygon">>, <<"growPointsX", "line">>, <<"growPointsX", "area">>, <<"growPointsY", "line">>, <<"growPointsY", "area">>}
Base(km) == [kind |-> km[1], mark |-> km[2], wx |-> "", wy |-> "", dir |-> "", ori |-> "", ov |-> "", ovv |-> 0, none |-> FALSE, fn |-> FALSE, off |-> 0, px |-> None, py |-> None, ang |-> None, clipd |-> "",
             set |-> <<>>, g |-> FALSE, gw |-> 220000, gh |-> 130000, vw |-> 400000, vh |-> 320000, upd |-> FALSE, tr |-> FALSE]
Plain(km) == {[Base(km) EXCEPT !.wx = wx, !.wy = wy, !.upd = u, !.g = (km[2] # "interval" /\ g), !.set = ss] :
               wx \in (IF km[2] = "rect" \/ km[2] = "area" THEN {"", "x1"} ELSE {""}), wy \in (IF km[2] = "rect" \/ km[2] = "area" THEN {"", "y1"} ELSE {""}), u \in BOOLEAN, g \in BOOLEAN,
               ss \in (IF km[2] = "symbol" THEN {<<"op", "fo", "so", "sx", "sy", "an">>, <<"op", "sx", "an">>, <<"fo", "sy", "an">>} ELSE IF km[1] = "clip" THEN {<<>>, <<"clip">>} ELSE {<<>>})}
Dirs3 == {"", "x", "y", "xy"}
Opts(b) ==
  LET kd == b.kind
      oris == {"", "pos", "neg"}
      ovs == {<<"", 0>>, <<"no", 0>>, <<"yes", 0>>, <<"num", 0>>, <<"num", 37000>>}
      pts == {<<None, None>>, <<150000, None>>, <<None, 60000>>, <<20000, 250000>>}
  IN {[b EXCEPT !.none = TRUE]} \cup
     (CASE kd \in {"growCenter", "scale"} -> {[b EXCEPT !.dir = d, !.fn = f] : d \in Dirs3, f \in BOOLEAN}
        [] kd \in {"growWidth", "growHeight", "growAngle"} -> {[b EXCEPT !.ori = o, !.ov = v[1], !.ovv = IF kd = "growAngle" THEN v[2] \div 10 ELSE v[2], !.fn = f] : o \in oris, v \in ovs, f \in BOOLEAN}
        [] kd = "growRadius" -> {[b EXCEPT !.ori = o, !.ov = v[1], !.ovv = v[2], !.fn = f] : o \in oris, v \in ovs, f \in BOOLEAN}
        [] kd = "growInterval" -> {[b EXCEPT !.ov = v[1], !.ovv = v[2], !.tr = tr, !.none = n] : v \in ovs, tr \in BOOLEAN, n \in BOOLEAN}
        [] kd = "move" -> {[b EXCEPT !.ori = o, !.dir = d, !.off = f, !.px = p[1], !.py = p[2], !.fn = fn] : o \in oris, d \in Dirs3, f \in {0, 12000, -7000}, p \in pts, fn \in BOOLEAN}
        [] kd = "rotate" -> {[b EXCEPT !.ori = o, !.ang = a, !.fn = f] : o \in oris, a \in {None, 2500, -1200}, f \in BOOLEAN}
        [] kd = "clip" -> {[b EXCEPT !.clipd = cd] : cd \in {"", "x", "y", "auto"}}
        [] kd = "growPoints" -> {[b EXCEPT !.px = p[1], !.py = p[2], !.fn = f] : p \in pts, f \in BOOLEAN}
        [] OTHER -> {[b EXCEPT !.ori = o, !.fn = f] : o \in oris, f \in BOOLEAN})
Fix(c) == IF c.none THEN [c EXCEPT !.ori = "", !.ov = "", !.dir = ""] ELSE c
V(a, b) == One({a + 1000 * i * b : i \in 0..9})
Row(c, key) ==
  CASE c.mark = "rect" -> {[k |-> key, x |-> x, y |-> y, w |-> w, h |-> h] : x \in V(30000, 9), y \in V(40000, 7), w \in One({-20000, 16000, 50000, 0}), h \in One({30000, -24000, 44000})}
    [] c.mark = "interval" -> {[k |-> key, i |-> IF key = "a" THEN 0 ELSE 1, v |-> v] : v \in One({0, 25, 40, 75, 100})}
    [] c.mark = "arc" -> {[k |-> key, s |-> s, e |-> e, ri |-> ri, ro |-> ro] : s \in One({0, 500, -800}), e \in One({1200, 3000, 6000}), ri \in One({0, 8000, 20000}), ro \in One({40000, 60000})}
    [] c.mark = "symbol" -> {[k |-> key, x |-> x, y |-> y, op |-> IF "op" \in Range(c.set) THEN op ELSE None, fo |-> IF "fo" \in Range(c.set) THEN fo ELSE None, so |-> IF "so" \in Range(c.set) THEN 600 ELSE None,
                               sx |-> IF "sx" \in Range(c.set) THEN sx ELSE None, sy |-> IF "sy" \in Range(c.set) THEN sx + 500 ELSE None, an |-> an] :
                               x \in V(30000, 9), y \in V(40000, 7), op \in One({300, 800}), fo \in One({400, 1000}), sx \in One({500, 2000}), an \in One({700, 8000, -2000})}
    [] OTHER -> {[k |-> key, clip |-> IF "clip" \in Range(c.set) THEN 700 ELSE None, pts |-> <<[x |-> x, y |-> y, x1 |-> x - 6000, y1 |-> y + 30000], [x |-> x + 30000, y |-> y2, x1 |-> x + 20000, y1 |-> y2 + 34000], [x |-> x + 50000, y |-> y, x1 |-> x + 61000, y1 |-> y + 9000]>>] :
                               x \in V(30000, 9), y \in V(40000, 7), y2 \in One({12000, 90000})}
Sets(c) == {<<r>> : r \in Row(c, "a")} \cup {<<>>} \cup {<<r, q>> : r \in Row(c, "a"), q \in Row(c, "b")} \cup {<<q>> : q \in Row(c, "b")}
Still(s) == \A x \in DOMAIN s.els : s.els[x].t = 4
Do(e) == st' = MotionStep(st, e) /\ k' = k + 1 /\ hist' = (IF Emit THEN Append(hist, e) ELSE <<e>>)
Init == \E i \in (IF Emit THEN 1..400 ELSE {1}) : \E km \in Pick({x \in Kinds : i > 0}) : \E b \in Pick({x \in Plain(km) : i > 0}) : \E c0 \in Pick({x \in Opts(b) : i > 0}) :
          LET c == Fix(c0) IN (Deep \/ Emit \/ (~c.upd /\ ~c.fn)) /\ st = Motion0(c) /\ k = 0 /\ hist = <<[op |-> "reset", cfg |-> c]>>
Step ==
  \/ Still(st) /\ \E r \in Pick(Sets(st.cfg)) : Do([op |-> "rows", rows |-> r])
  \/ ~Still(st) /\ st.rows # <<>> /\ Do([op |-> "rows", rows |-> SelectSeq(st.rows, LAMBDA r : st.els[r.k].t = 4)]) \* what still moves has to leave
  \/ ~Still(st) /\ \E q \in Pick(1..3) : Do([op |-> "frame", q |-> q])
Next == (k < MaxLen - (IF Emit THEN 1 ELSE 0) /\ Step) \/ (Emit /\ k = MaxLen - 1 /\ Do([op |-> "frame", q |-> 4]))
Spec == Init /\ [][Next]_<<st, hist, k>>
View == <<st, k>>
MotionOK == MotionInv(st)
(* what has collapsed has no extent left on the axis its animation works on, and collapsing twice changes nothing       *)
CollapseOnce == \A x \in DOMAIN st.els : LET g == st.els[x].to IN (~st.els[x].out /\ st.cfg.kind # "move" /\ st.cfg.kind # "rotate" /\ st.cfg.kind # "growPoints") => Collapsed(st.cfg, Collapsed(st.cfg, g)) = Collapsed(st.cfg, g)
Extent(p) == p[2] - p[1]
NoExtent == \A x \in DOMAIN st.els : LET g == Collapsed(st.cfg, st.els[x].to) IN
  CASE st.cfg.kind = "growWidth" -> Extent(g.X) = 0 [] st.cfg.kind = "growHeight" -> Extent(g.Y) = 0 [] st.cfg.kind = "growAngle" -> Extent(g.A) = 0 [] st.cfg.kind = "growRadius" -> Extent(g.R) = 0
    [] st.cfg.kind = "growInterval" -> Extent(IF st.cfg.tr THEN g.X ELSE g.Y) = 0 [] OTHER -> TRUE
(* an entrance animation works only on what it is for: an element's other channels are final from the first frame       *)
Mine(c) == CASE c.kind = "growCenter" -> {IF d = "x" THEN "X" ELSE "Y" : d \in Dirs(c)} [] c.kind = "growWidth" -> {"X"} [] c.kind = "growHeight" -> {"Y"} [] c.kind = "growInterval" -> {IF c.tr THEN "X" ELSE "Y"}
  [] c.kind = "growAngle" -> {"A"} [] c.kind = "growRadius" -> {"R"} [] c.kind = "fade" -> {"op", "fo", "so"} [] c.kind = "scale" -> {"sx", "sy"} [] c.kind = "rotate" -> {"an"} [] c.kind = "clip" -> {"clip"}
  [] c.kind = "growPointsX" -> {"x", "x1"} [] c.kind = "growPointsY" -> {"y", "y1"} [] OTHER -> {"x", "y", "x1", "y1"}
OnlyMine == ~st.cfg.upd => \A x \in DOMAIN st.els : \A ch \in DOMAIN st.els[x].to : ch \in Mine(st.cfg) \/ At(st.els[x])[ch] = st.els[x].to[ch]
EmitAll == (k' = MaxLen) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
=============================================================================
