------------------------------- MODULE Motion -------------------------------
(* The built-in entrance and exit animations: an element that enters is drawn at the collapsed geometry its animation   *)
(* describes and moves linearly (the easing used here) to its own geometry; an element that leaves moves from what is   *)
(* drawn to the collapsed geometry and is gone at the end; an element that changes moves with the update animation, or  *)
(* jumps without one. Time is counted in quarters of the animations' common duration; lengths, angles and opacities in  *)
(* thousandths.                                                                                                         *)
EXTENDS Util
None == -99999999
Turn == 6283185 \* a whole turn, in millionths
(* ---- what a row describes: the drawn geometry of its element at rest, as channel |-> sequence of numbers ---- *)
Pair(a, b) == <<Min2(a, b), Max2(a, b)>>
Or(v, d) == IF v = None THEN d ELSE v
PathCh(c) == IF c.mark = "area" THEN {"x", "y", "x1", "y1"} ELSE {"x", "y"}
PtOf(c, p, ch) == CASE ch = "x1" -> (IF c.wx = "x1" THEN p.x1 ELSE p.x) [] ch = "y1" -> (IF c.wy = "y1" THEN p.y1 ELSE p.y) [] ch = "x" -> p.x [] OTHER -> p.y
(* bars: two bands, values of 0..100, bars grow from the base of the value axis; a transposed coordinate swaps the axes  *)
BarLen(c, r) == LET side == IF c.tr THEN c.vw ELSE c.vh IN (side * r.v) \div 100
BarBand(c, r) == LET side == IF c.tr THEN c.vh ELSE c.vw
                     lo == (side * (r.i * 4 + 1)) \div 8
                     hi == (side * (r.i * 4 + 3)) \div 8
                 IN IF c.tr THEN <<side - hi, side - lo>> ELSE <<lo, hi>>
Geo(c, r) ==
  CASE c.mark = "rect" -> [X |-> <<r.x, r.x + r.w>>, Y |-> <<r.y, r.y + r.h>>]
    [] c.mark = "interval" -> (IF c.tr THEN [X |-> <<c.vw - BarLen(c, r), c.vw>>, Y |-> BarBand(c, r)]
                               ELSE [X |-> BarBand(c, r), Y |-> <<0, BarLen(c, r)>>])
    [] c.mark = "arc" -> [A |-> <<r.s, r.e>>, R |-> <<r.ri, r.ro>>]
    [] c.mark = "symbol" -> [x |-> <<r.x>>, y |-> <<r.y>>, op |-> <<Or(r.op, 1000)>>, fo |-> <<Or(r.fo, 1000)>>, so |-> <<Or(r.so, 1000)>>,
                             sx |-> <<Or(r.sx, 1000)>>, sy |-> <<Or(r.sy, 1000)>>, an |-> <<Or(r.an, 0)>>]
    [] OTHER -> [ch \in PathCh(c) \cup {"clip"} |-> IF ch = "clip" THEN <<Or(r.clip, 1000)>> ELSE [i \in 1..Len(r.pts) |-> PtOf(c, r.pts[i], ch)]]
(* ---- the collapsed geometry of an animation ---- *)
Side(c, ch) == IF ch = "x" THEN (IF c.g THEN c.gw ELSE c.vw) ELSE (IF c.g THEN c.gh ELSE c.vh)
Neg(c) == c.ori = "neg"
(* where everything starts when the options ask for one common start: a given place, the far side of the group, or 0    *)
Common(c, far) == IF c.ov = "num" THEN c.ovv ELSE IF Neg(c) THEN far ELSE 0
IsCommon(c) == c.ov \in {"yes", "num"}
Mid(p) == (p[1] + p[2]) \div 2
Both(v) == <<v, v>>
Same(s, v) == [i \in 1..Len(s) |-> v]
Mean(s) == SumSeq(s) \div Len(s)
Dirs(c) == IF c.dir \in {"x", "y"} THEN {c.dir} ELSE {"x", "y"}
Grown(c, p, ch) == Both(IF IsCommon(c) THEN Common(c, Side(c, ch)) ELSE IF Neg(c) THEN Max2(p[1], p[2]) ELSE Min2(p[1], p[2]))
Floor(a) == (a * 1000) \div Turn
Ceil(a) == -(((-a) * 1000) \div Turn)
Whole(n) == (n * Turn) \div 1000
(* bars collapse onto the base of the value axis, or all together onto the far side of the group                        *)
BarTo(c, p, ch) == Both(IF c.none \/ c.ov = "yes" THEN Side(c, ch) ELSE IF c.ov = "num" THEN c.ovv ELSE IF c.tr THEN p[2] ELSE p[1])
Collapsed(c, g) ==
  CASE c.kind = "growCenter" -> [g EXCEPT !.X = IF "x" \in Dirs(c) THEN Both(Mid(@)) ELSE @, !.Y = IF "y" \in Dirs(c) THEN Both(Mid(@)) ELSE @]
    [] c.kind = "growWidth" -> [g EXCEPT !.X = Grown(c, @, "x")]
    [] c.kind = "growHeight" -> [g EXCEPT !.Y = Grown(c, @, "y")]
    [] c.kind = "growInterval" -> (IF c.tr THEN [g EXCEPT !.X = BarTo(c, @, "x")] ELSE [g EXCEPT !.Y = BarTo(c, @, "y")])
    [] c.kind = "growAngle" -> [g EXCEPT !.A = Both(IF IsCommon(c) THEN Common(c, Whole(1)) ELSE IF Neg(c) THEN @[2] ELSE @[1])]
    [] c.kind = "growRadius" -> [g EXCEPT !.R = Both(IF IsCommon(c) THEN (IF c.ov = "num" THEN c.ovv ELSE 0) ELSE IF Neg(c) THEN @[2] ELSE @[1])]
    [] c.kind = "fade" -> [g EXCEPT !.op = <<0>>, !.fo = <<0>>, !.so = <<0>>]
    [] c.kind = "scale" -> [g EXCEPT !.sx = IF "x" \in Dirs(c) THEN <<0>> ELSE @, !.sy = IF "y" \in Dirs(c) THEN <<0>> ELSE @]
    [] c.kind = "rotate" -> [g EXCEPT !.an = <<IF c.ang # None THEN c.ang ELSE IF Neg(c) THEN Whole(Ceil(@[1])) ELSE Whole(Floor(@[1]))>>]
    [] c.kind = "move" -> [g EXCEPT !.x = IF "x" \in Dirs(c) THEN <<IF c.px # None THEN c.px ELSE (IF Neg(c) THEN Side(c, "x") ELSE 0) + c.off>> ELSE @,
                                    !.y = IF "y" \in Dirs(c) THEN <<IF c.py # None THEN c.py ELSE (IF Neg(c) THEN Side(c, "y") ELSE 0) + c.off>> ELSE @]
    [] c.kind = "clip" -> [g EXCEPT !.clip = <<0>>]
    [] c.kind = "growPoints" -> [ch \in DOMAIN g |-> CASE ch \in {"x", "x1"} -> Same(g[ch], IF c.px # None THEN c.px ELSE Mean(g.x))
                                                       [] ch \in {"y", "y1"} -> Same(g[ch], IF c.py # None THEN c.py ELSE Mean(g.y)) [] OTHER -> g[ch]]
    [] c.kind = "growPointsX" -> [ch \in DOMAIN g |-> IF ch \in {"x", "x1"} THEN Same(g[ch], IF Neg(c) THEN Side(c, "x") ELSE 0) ELSE g[ch]]
    [] OTHER -> [ch \in DOMAIN g |-> IF ch \in {"y", "y1"} THEN Same(g[ch], IF Neg(c) THEN Side(c, "y") ELSE 0) ELSE g[ch]]
(* ---- elements: from, to, quarters gone, and whether the element is leaving. Whatever an element was doing, it leaves  *)
(* from its own geometry: the animation that ran is given up for the exit animation                                     *)
Rest(g) == [from |-> g, to |-> g, t |-> 4, out |-> FALSE]
Go(a, b, out) == [from |-> a, to |-> b, t |-> 0, out |-> out]
Lerp(a, b, t) == [ch \in DOMAIN a |-> [i \in 1..Len(a[ch]) |-> a[ch][i] + ((b[ch][i] - a[ch][i]) * t) \div 4]]
At(el) == Lerp(el.from, el.to, el.t)
(* a box whose second side comes before the first is drawn to the other side                                                                *)
Shown(el) == LET a == At(el) IN [ch \in DOMAIN a |-> IF ch \in {"X", "Y"} THEN Pair(a[ch][1], a[ch][2]) ELSE a[ch]]
Motion0(cfg) == [cfg |-> cfg, rows |-> <<>>, els |-> [k \in {} |-> 0]]
RowsKeys(rows) == {rows[i].k : i \in 1..Len(rows)}
RowOf(rows, k) == rows[CHOOSE i \in 1..Len(rows) : rows[i].k = k]
Renewed(s, rows) ==
  LET c == s.cfg
      new(k) == Geo(c, RowOf(rows, k))
      one(k) == IF k \notin DOMAIN s.els THEN Go(Collapsed(c, new(k)), new(k), FALSE)
                ELSE IF k \notin RowsKeys(rows) THEN (IF s.els[k].out THEN s.els[k] ELSE Go(s.els[k].to, Collapsed(c, s.els[k].to), TRUE))
                ELSE IF s.els[k].to = new(k) THEN s.els[k]
                ELSE IF c.upd THEN Go(s.els[k].to, new(k), FALSE) ELSE Rest(new(k))
  IN [k \in DOMAIN s.els \cup RowsKeys(rows) |-> one(k)]
Later(s, q) == LET kept == {k \in DOMAIN s.els : ~(s.els[k].out /\ s.els[k].t + q >= 4)} IN [k \in kept |-> [s.els[k] EXCEPT !.t = Min2(4, @ + q)]]
MotionStep(s, e) == CASE e.op = "rows" -> [s EXCEPT !.els = Renewed(s, e.rows), !.rows = e.rows] [] e.op = "frame" -> [s EXCEPT !.els = Later(s, e.q)] [] OTHER -> s
(* ---- what is observed ---- *)
Near(a, b) == \A ch \in DOMAIN a : Has(b, ch) /\ Len(b[ch]) = Len(a[ch]) /\ \A i \in 1..Len(a[ch]) : Abs(a[ch][i] - b[ch][i]) <= 4
(* while a line or an area is clipped open or shut, it is along the axis asked for *)
ClipDimOK(s, k, dim) == (s.cfg.kind = "clip" /\ s.els[k].t < 4 /\ (s.els[k].out \/ s.els[k].from.clip = <<0>>)) => dim = s.cfg.clipd
SeenOK(s, obs) == DOMAIN obs.els = DOMAIN s.els /\ \A k \in DOMAIN s.els : Near(Shown(s.els[k]), obs.els[k].d) /\ ClipDimOK(s, k, obs.els[k].dim)
MotionAccept(s, e) == e.op # "threw" /\ SeenOK(MotionStep(s, e), e.obs)
MotionExplain(s, e) == LET n == MotionStep(s, e) IN [k \in DOMAIN n.els |-> Shown(n.els[k])]
(* ---- laws ---- *)
(* an element keeps the shape of its geometry whatever moves it; what stays is drawn as its row says once at rest; an   *)
(* element that is through with leaving is not kept                                                                     *)
MotionInv(s) == \A k \in DOMAIN s.els : LET el == s.els[k] IN
  /\ DOMAIN el.from = DOMAIN el.to /\ \A ch \in DOMAIN el.from : Len(el.from[ch]) = Len(el.to[ch])
  /\ el.t \in 0..4 /\ (el.out => el.t < 4)
  /\ (el.t = 4 => At(el) = el.to)
=============================================================================
