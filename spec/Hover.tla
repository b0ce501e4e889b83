-------------------------------- MODULE Hover --------------------------------
(* Crosshairs and tooltips. Lengths and angles are hundredths; a scale is cut into steps of s with inner and outer      *)
(* padding in quarters of a step. A crosshair marks the category whose centre is nearest to the pointer, or the pointer *)
(* itself on a continuous scale, across its container; it is shown while the pointer is inside the container. A tooltip *)
(* says the rows of the datum under the pointer, or of all data that answer to the scale's value at the pointer.        *)
EXTENDS Util
None == -9999
Near(a, b, d) == Abs(a - b) <= d
(* ---- scales: places in hundredths ---- *)
Len100(c) == 25 * c.s * (4 * c.n - c.pi + 2 * c.po)
Bw(c) == 25 * c.s * (4 - c.pi)
Centre(c, i) == 100 * c.base + 25 * c.s * c.po + 100 * c.s * (IF c.rev THEN c.n - i ELSE i - 1) + Bw(c) \div 2
Discrete(c) == c.kind # "linear"
At(c, p) == CHOOSE i \in 1..c.n : \A j \in 1..c.n : Abs(p - Centre(c, i)) < Abs(p - Centre(c, j)) \/ (Abs(p - Centre(c, i)) = Abs(p - Centre(c, j)) /\ i <= j)
Snap(c, p) == IF Discrete(c) THEN Centre(c, At(c, p)) ELSE p
Letters == <<"a", "b", "c", "d", "e", "f", "g">>
(* the value of a continuous scale at p, in hundredths *)
Value(c, p) == c.dk * (IF c.rev THEN 100 * c.base + Len100(c) - p ELSE p - 100 * c.base)
(* ---- the pointer: coordinates inside the container, and around the centre for polar behaviours ---- *)
Inside(cfg, e) == e.px >= 0 /\ e.px <= 100 * cfg.w /\ e.py >= 0 /\ e.py <= 100 * cfg.h
Place(type, e) == IF type = "x" THEN e.px ELSE IF type = "y" THEN e.py ELSE IF type = "angle" THEN 100 * e.deg + 25 ELSE 100 * e.rad + 25
(* ---- crosshairs ---- *)
LinePaint(th) == IF th = "t1" THEN "#000011" ELSE "#b2bacf"
Paint(cfg, o, sh) ==
  IF o.paint # "" THEN o.paint
  ELSE IF cfg.th # "t1" THEN "#b2bacf"
  ELSE IF sh = "line" THEN "#000011" ELSE IF sh = "rect" THEN "#000012" ELSE IF sh = "sector" THEN "#000013" ELSE IF sh = "circle" THEN "#000014" ELSE IF sh = "ring" THEN "#000016" ELSE "#000015"
Shape(o) == IF o.type \in {"x", "y"} THEN o.shape ELSE IF o.type = "angle" THEN (IF o.shape = "line" THEN "line" ELSE "sector") ELSE IF o.type = "radius" THEN (IF o.shape = "line" THEN "circle" ELSE "ring") ELSE "polygon"
MaxR(cfg, o) == IF o.radius # None THEN 100 * o.radius ELSE 50 * Min2(cfg.w, cfg.h)
RectSize(cfg, c, o) == IF Discrete(c) THEN 100 * c.s ELSE IF o.rs # None THEN 100 * (IF o.type = "x" THEN o.rs ELSE o.rs + 3) ELSE IF cfg.th = "t1" THEN (IF o.type = "x" THEN 1600 ELSE 2800) ELSE 1000
Wide(cfg, c) == IF Discrete(c) THEN 100 * c.s ELSE IF cfg.th = "t1" THEN 4500 ELSE 3000
Cross(cfg, c, o, e) ==
  LET sh == Shape(o)  p == Place(o.type, e)  at == Snap(c, p)  x0 == 100 * cfg.cx  y0 == 100 * cfg.cy
      qx == x0 + 100 * cfg.ctr[1]  qy == y0 + 100 * cfg.ctr[2]
      rad == IF Discrete(c) THEN at ELSE Min2(MaxR(cfg, o), p)
      half == IF Discrete(c) THEN 50 * c.s ELSE 0
      pa == Paint(cfg, o, sh) IN
  IF sh = "line" /\ o.type = "x" THEN [vis |-> TRUE, sh |-> "line", v |-> <<x0 + at, y0, x0 + at, y0 + 100 * cfg.h>>, deg |-> None, wide |-> None, paint |-> pa]
  ELSE IF sh = "line" /\ o.type = "y" THEN [vis |-> TRUE, sh |-> "line", v |-> <<x0, y0 + at, x0 + 100 * cfg.w, y0 + at>>, deg |-> None, wide |-> None, paint |-> pa]
  ELSE IF sh = "line" THEN [vis |-> TRUE, sh |-> "line", v |-> <<qx, qy, MaxR(cfg, o)>>, deg |-> at, wide |-> None, paint |-> pa]
  ELSE IF sh = "rect" THEN LET z == RectSize(cfg, c, o) IN
       [vis |-> TRUE, sh |-> "rect", v |-> IF o.type = "x" THEN <<x0 + at - z \div 2, y0, z, 100 * cfg.h>> ELSE <<x0, y0 + at - z \div 2, 100 * cfg.w, z>>, deg |-> None, wide |-> None, paint |-> pa]
  ELSE IF sh = "sector" THEN [vis |-> TRUE, sh |-> "arc", v |-> <<qx, qy, 0, MaxR(cfg, o)>>, deg |-> at, wide |-> Wide(cfg, c), paint |-> pa]
  ELSE IF sh = "circle" THEN [vis |-> TRUE, sh |-> "arc", v |-> <<qx, qy, 0, rad>>, deg |-> None, wide |-> 36000, paint |-> pa]
  ELSE IF sh = "ring" THEN [vis |-> TRUE, sh |-> "arc", v |-> <<qx, qy, rad - half, rad + half>>, deg |-> None, wide |-> 36000, paint |-> pa]
  ELSE [vis |-> TRUE, sh |-> "polygon", v |-> <<qx, qy, IF cfg.th = "t1" THEN 4 ELSE 6, rad>>, deg |-> None, wide |-> None, paint |-> pa]
Hidden == [vis |-> FALSE]
(* ---- tooltips ---- *)
Text(d, p) ==
  IF p.t = "none" THEN "" ELSE IF p.t = "text" THEN p.v
  ELSE IF p.t = "fn" /\ p.v = "obj" THEN (IF d.v = None THEN "" ELSE d.k)
  ELSE IF p.v = "k" THEN d.k ELSE IF p.v = "c" THEN d.c ELSE IF p.v = "s" THEN d.s ELSE IF d.v = None THEN "" ELSE ToString(d.v)
Vis(d, r) == IF r.vis = "no" THEN FALSE ELSE IF r.vis = "odd" THEN d.v # None /\ d.v % 2 = 1 ELSE TRUE
Row(d, r) == [vis |-> Vis(d, r), key |-> Text(d, r.key), value |-> Text(d, r.value), symbol |-> Text(d, r.symbol)]
RECURSIVE Plus(_)
Plus(ds) == IF ds = <<>> THEN "" ELSE IF Len(ds) = 1 THEN ds[1].k ELSE ds[1].k \o "+" \o Plus(Tail(ds))
NoRow == [vis |-> FALSE, key |-> "", value |-> "", symbol |-> ""]
TitleRow == [vis |-> TRUE, key |-> "", value |-> "", symbol |-> ""]
Title(o, ds) == IF o.title.t = "none" THEN NoRow ELSE IF o.title.t = "text" THEN [TitleRow EXCEPT !.value = o.title.v] ELSE IF o.title.t = "fn" THEN [TitleRow EXCEPT !.value = o.title.v, !.key = Plus(ds)] ELSE Row(ds[1], o.title.r)
Rows(o, ds) == IF o.content.t = "none" THEN <<>> ELSE IF o.content.t = "fn" THEN Map(o.content.v, LAMBDA t : [TitleRow EXCEPT !.value = t, !.key = Plus(ds)]) ELSE Concat(Map(ds, LAMBDA d : Map(o.content.r, LAMBDA r : Row(d, r))))
Answers(c, o, e, d) == LET p == Place(o.type, e) IN IF Discrete(c) THEN d.c = Letters[At(c, p)] ELSE d.v # None /\ Abs(100 * d.v - Value(c, p)) <= 100 * o.tol
Tip(cfg, o, e, ds) == [vis |-> TRUE, sh |-> "tip", p |-> <<100 * cfg.cx + e.px, 100 * cfg.cy + e.py>>, bounds |-> <<0, 0, 100 * cfg.vw, 100 * cfg.vh>>, hasTitle |-> o.title.t # "none", title |-> Title(o, ds), rows |-> Rows(o, ds), off |-> o.addx]
Under(s, e) == SelectSeq(s.rows, LAMBDA d : d.k = e.k)
Says(s, o, e) ==
  IF o.kind = "crosshair" THEN (IF Inside(s.cfg, e) THEN Cross(s.cfg, s.sc, o, e) ELSE Hidden)
  ELSE IF o.kind = "tooltip" THEN (IF e.hit # "" /\ e.hit \in Range(o.marks) THEN Tip(s.cfg, o, e, Under(s, e)) ELSE Hidden)
  ELSE IF ~Inside(s.cfg, e) \/ (e.hit # "" /\ e.hit \in Range(o.avoid)) THEN Hidden
  ELSE Tip(s.cfg, o, e, SelectSeq(s.rows, LAMBDA d : Answers(s.sc, o, e, d)))
(* ---- behaviour: events of tooltips closer than 10 ms are put off, the last one counts ---- *)
Norm(rows) == Map(rows, LAMBDA d : d)
Hover0(cfg) == [cfg |-> cfg, sc |-> cfg.sc, rows |-> cfg.rows, on |-> <<>>, now |-> 0]
New(o) == [o |-> o, want |-> Hidden, lc |-> -100, late |-> FALSE, fresh |-> TRUE]
Pass(s, dt) == [s EXCEPT !.now = @ + dt, !.on = Map(@, LAMBDA i : IF i.late /\ s.now + dt - i.lc >= 10 THEN [i EXCEPT !.late = FALSE] ELSE i)]
Point(s, i, e) ==
  IF e.ty = i.o.trig THEN (IF i.o.kind = "crosshair" THEN [i EXCEPT !.want = Says(s, i.o, e), !.fresh = FALSE] ELSE [i EXCEPT !.fresh = FALSE, !.want = Says(s, i.o, e), !.lc = s.now, !.late = s.now - i.lc < 10])
  ELSE IF e.ty = i.o.off THEN [i EXCEPT !.want = Hidden, !.fresh = FALSE] ELSE i
HoverStep(s0, e) ==
  LET s == Pass(s0, e.dt) IN
  IF e.op = "bind" THEN [s EXCEPT !.on = Append(@, New(e.o))]
  ELSE IF e.op = "unbind" THEN (IF e.by = "all" THEN [s EXCEPT !.on = <<>>] ELSE [s EXCEPT !.on = SelectSeq(@, LAMBDA i : i.o.name # e.v)])
  ELSE IF e.op = "rebind" THEN [s EXCEPT !.on = Map(@, LAMBDA i : IF i.o.name = e.v THEN New(i.o) ELSE i)]
  ELSE IF e.op = "rows" THEN [s EXCEPT !.rows = e.rows]
  ELSE IF e.op = "scale" THEN [s EXCEPT !.sc = e.sc]
  ELSE IF e.op = "ev" THEN [s EXCEPT !.on = Map(@, LAMBDA i : Point(s, i, e))]
  ELSE s
(* ---- judging ---- *)
Turn(a, b) == LET d == ((a - b) % 36000) IN d <= 3 \/ d >= 35997
SeqNear(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], 2)
Wrong(c, name) == IF c THEN {name} ELSE {}
BadCross(w, x) ==
  IF w.sh # x.sh THEN {"shape"}
  ELSE IF w.sh = "line" /\ w.deg # None THEN Wrong(~SeqNear(SubSeq(x.v, 1, 2), SubSeq(w.v, 1, 2)), "centre") \cup Wrong(~Near(x.len, w.v[3], 2), "length") \cup Wrong(~Turn(x.deg, w.deg), "angle") \cup Wrong(x.paint # w.paint, "paint")
  ELSE Wrong(~SeqNear(x.v, w.v), "place") \cup Wrong(x.paint # w.paint, "paint")
       \cup (IF w.sh # "arc" THEN {} ELSE Wrong(w.deg # None /\ ~Turn(x.mid, w.deg), "angle") \cup Wrong(~Near(x.wide, w.wide, 3), "width"))
SameRow(a, b) == a.vis = b.vis /\ a.key = b.key /\ a.value = b.value /\ a.symbol = b.symbol
BadTip(w, x) ==
  Wrong(~SeqNear(x.p, w.p), "pointer") \cup Wrong(~SeqNear(x.bounds, w.bounds), "bounds")
  \cup Wrong(w.hasTitle # (x.hasTitle /\ (x.title.vis \/ ~w.title.vis)) , "has title") \cup Wrong(w.hasTitle /\ x.hasTitle /\ ~SameRow(x.title, w.title), "title")
  \cup Wrong(Len(x.rows) # Len(w.rows) \/ (Len(x.rows) = Len(w.rows) /\ \E i \in 1..Len(w.rows) : ~SameRow(x.rows[i], w.rows[i])), "rows")
  \cup Wrong(w.off # None /\ x.off # 100 * w.off, "addition")
Bad1(i, x) == IF x.name # i.o.name THEN {"order"} ELSE IF i.late \/ (i.fresh /\ i.o.kind = "crosshair") THEN {} ELSE IF x.vis # i.want.vis THEN {IF x.vis THEN "shown" ELSE "not shown"} ELSE IF ~x.vis THEN {} ELSE IF i.o.kind = "crosshair" THEN BadCross(i.want, x) ELSE BadTip(i.want, x)
Bad(s, e) == LET z == HoverStep(s, e) IN
  IF Len(z.on) # Len(e.obs) THEN {"count"} ELSE Wrong(e.n # Len(z.on), "left over") \cup UNION {Bad1(z.on[i], e.obs[i]) : i \in 1..Len(e.obs)}
HoverAccept(s, e) == e.op # "threw" /\ Bad(s, e) = {}
HoverExplain(s, e) == IF e.op = "threw" THEN [wrong |-> {"threw"}, want |-> <<>>] ELSE [wrong |-> Bad(s, e), want |-> Map(HoverStep(s, e).on, LAMBDA i : [n |-> i.o.name, late |-> i.late, want |-> i.want])]
HoverInv(s) == \A i \in 1..Len(s.on) : s.on[i].late => s.now - s.on[i].lc < 10
=============================================================================
