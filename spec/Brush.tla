-------------------------------- MODULE Brush --------------------------------
(* Brushes over marks. The mask of a brush is a box or a polygon in the coordinates of the stage; at every step of a    *)
(* brush its marks' elements under the mask get the state of a brush-active, are highlighted while all others are       *)
(* blurred by a brush-highlight, or give their rows to the data a brush-filter aims at. Clearing takes it all back.     *)
(* Elements whose distance to the edge of the mask is within the mask's outline may be taken or not: what is reported.  *)
EXTENDS Util
Edge == 4
Kinds == <<"S", "R">>
(* ---- geometry of elements, of kind symbol or rect, on the stage ---- *)
Px(s, r) == s.cfg.g[1] + r.x
Py(s, r) == s.cfg.g[2] + r.y
Box(s, m, r) == IF m = "S" THEN <<Px(s, r), Py(s, r), Px(s, r), Py(s, r)>> ELSE <<Px(s, r), Py(s, r), Px(s, r) + r.w, Py(s, r) + r.h>>
Corners(b) == {<<b[1], b[2]>>, <<b[3], b[2]>>, <<b[3], b[4]>>, <<b[1], b[4]>>}
(* ---- masks: a sequence of points ---- *)
Xs(p) == {p[i][1] : i \in 1..Len(p)}
Ys(p) == {p[i][2] : i \in 1..Len(p)}
Hull(p) == <<SetMin(Xs(p)), SetMin(Ys(p)), SetMax(Xs(p)), SetMax(Ys(p))>>
Meets(a, b, d) == a[1] <= b[3] + d /\ b[1] <= a[3] + d /\ a[2] <= b[4] + d /\ b[2] <= a[4] + d
Turn(a, b, c) == LET v == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1]) IN IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
Nx(p, i) == p[(i % Len(p)) + 1]
Convex(p) == Len(p) >= 3 /\ \E t \in {1, -1} : \A i, j \in 1..Len(p) : (p[j] # p[i] /\ p[j] # Nx(p, i)) => Turn(p[i], Nx(p, i), p[j]) = t
Strictly(p, q) == \E t \in {1, -1} : \A i \in 1..Len(p) : Turn(p[i], Nx(p, i), q) = t
Beyond(p, q) == \E i \in 1..Len(p), t \in {1, -1} : Turn(p[i], Nx(p, i), q) = t /\ \A j \in 1..Len(p) : Turn(p[i], Nx(p, i), p[j]) # t
(* "in", "out" or "edge" *)
Where(type, p, b, m) ==
  IF Len(p) < 2 THEN "out"
  ELSE LET h == Hull(p) IN
  IF ~Meets(h, b, Edge) THEN "out"
  ELSE IF h[1] = h[3] \/ h[2] = h[4] THEN "edge"
  ELSE IF type # "polygon" THEN (IF Meets(h, b, 0) THEN "in" ELSE "edge")
  ELSE IF ~Convex(p) THEN "edge"
  ELSE IF \E q \in Corners(b) : Strictly(p, q) THEN "in"
  ELSE IF m = "S" /\ Beyond(p, <<b[1], b[2]>>) THEN "out" ELSE "edge"
(* ---- one step of a brush: the marks and keys of the elements under it ---- *)
Of(s, name) == CHOOSE i \in 1..Len(s.on) : s.on[i].o.name = name
All(s, o) == {<<o.sel[n], s.rows[i].k>> : n \in 1..Len(o.sel), i \in 1..Len(s.rows)}
RowOf(s, k) == s.rows[CHOOSE i \in 1..Len(s.rows) : s.rows[i].k = k]
Seen(s, o, e, mk) == LET w == Where(o.type, e.pts, Box(s, mk[1], RowOf(s, mk[2])), mk[1]) IN w = "in" \/ (w = "edge" /\ mk \in Range(e.act))
Under(s, o, e) == IF e.ty = "brushClear" THEN {} ELSE {mk \in All(s, o) : Seen(s, o, e, mk)}
Mark(S, nm) == {<<mk[1], mk[2], nm>> : mk \in S}
States(s, o, e) ==
  LET in == Under(s, o, e)  out == All(s, o) \ in IN
  IF o.kind = "brush-active" THEN (s.has \ Mark(out, o.a)) \cup Mark(in, o.a)
  ELSE IF o.kind = "brush-highlight" THEN
    (IF e.ty = "brushClear" THEN s.has \ (Mark(out, o.a) \cup Mark(out, o.b))
     ELSE (s.has \ (Mark(out, o.a) \cup Mark(in, o.b))) \cup Mark(in, o.a) \cup Mark(out, o.b))
  ELSE s.has
(* ---- the filtered data: rows under the brush, or what a transform makes of the own rows and these ---- *)
Free == [on |-> FALSE, rows |-> {}]
Taken(s, o, e) == IF e.ty = "brushClear" THEN Free ELSE LET u == {mk[2] : mk \in Under(s, o, e)} IN [on |-> TRUE, rows |-> {RowOf(s, k) : k \in u}]
Target(s) ==
  LET fs == SelectSeq(s.on, LAMBDA i : i.o.kind = "brush-filter" /\ i.f.on)
      one(R, i) == IF i.o.fn THEN {r \in R : \E q \in i.f.rows : q.c = r.c} ELSE {[k |-> q.k, c |-> q.c] : q \in i.f.rows} IN
  {r.k : r \in Fold(LAMBDA R, i : one(R, i), Range(s.erows), fs)}
(* ---- the state ---- *)
Brush0(cfg) == [cfg |-> cfg, rows |-> cfg.rows, erows |-> cfg.erows, on |-> <<>>, has |-> {}]
BrushStep(s, e) ==
  IF e.op = "bind" THEN [s EXCEPT !.on = Append(@, [o |-> e.o, f |-> Free])]
  ELSE IF e.op = "unbind" THEN [s EXCEPT !.on = SelectSeq(@, LAMBDA i : i.o.name # e.v)]
  ELSE IF e.op = "rows" THEN [s EXCEPT !.rows = e.rows, !.has = {h \in @ : \E i \in 1..Len(e.rows) : e.rows[i].k = h[2]}]
  ELSE IF e.op = "erows" THEN [s EXCEPT !.erows = e.erows]
  ELSE IF e.op = "brush" THEN
    LET n == Of(s, e.name)  o == s.on[n].o IN
    [s EXCEPT !.has = States(s, o, e), !.on[n].f = IF o.kind = "brush-filter" THEN Taken(s, o, e) ELSE @]
  ELSE s
(* ---- judging ---- *)
Wrong(c, name) == IF c THEN {name} ELSE {}
Event(ty) == IF ty \in {"drawStart", "moveStart"} THEN "start" ELSE IF ty \in {"drawing", "moving"} THEN "update" ELSE IF ty \in {"drawEnd", "moveEnd"} THEN "end" ELSE "reset"
Window(s, o) == IF o.ir # <<>> THEN o.ir ELSE s.cfg.vb
BadMask(s, o, e) ==
  IF e.raw = <<>> THEN {}
  ELSE LET w == Window(s, o)
           xr == IF o.xr # <<>> THEN o.xr ELSE <<s.cfg.vb[1], s.cfg.vb[3]>>
           yr == IF o.yr # <<>> THEN o.yr ELSE <<s.cfg.vb[2], s.cfg.vb[4]>>
           full == Len(e.raw) > 2 IN
       Wrong(o.type = "x" /\ full /\ Ys(e.raw) # {yr[1], yr[2]}, "mask y") \cup Wrong(o.type = "y" /\ full /\ Xs(e.raw) # {xr[1], xr[2]}, "mask x")
       \cup Wrong(o.type # "y" /\ \E x \in Xs(e.raw) : x < w[1] \/ x > w[3], "mask leaves its range") \cup Wrong(o.type # "x" /\ \E y \in Ys(e.raw) : y < w[2] \/ y > w[4], "mask leaves its range")
BadEv(s, e) ==
  LET o == s.on[Of(s, e.name)].o  u == Under(s, o, e) IN
  Wrong(Range(e.act) # u \/ Cardinality(u) # Len(e.act), "elements told") \cup Wrong(e.told # <<Event(e.ty), Event(e.ty)>>, "event told") \cup BadMask(s, o, e)
Look(s, e) == Wrong({e.has[i] : i \in 1..Len(e.has)} # s.has, "states") \cup Wrong(Range(e.shown) # Target(s), "rows") \cup Wrong(Len(e.shown) # Cardinality(Range(e.shown)), "rows twice") \cup Wrong(e.n # Len(s.on), "brushes")
Bad(s, e) == (IF e.op = "brush" THEN IF \E i \in 1..Len(s.on) : s.on[i].o.name = e.name THEN BadEv(s, e) ELSE {"still there"} ELSE {}) \cup (IF e.op = "brush" /\ ~\E i \in 1..Len(s.on) : s.on[i].o.name = e.name THEN {} ELSE Look(BrushStep(s, e), e))
BrushAccept(s, e) == e.op # "threw" /\ Bad(s, e) = {}
BrushExplain(s, e) == IF e.op = "threw" THEN [wrong |-> {"threw"}, want |-> {}] ELSE [wrong |-> Bad(s, e), want |-> IF "still there" \in Bad(s, e) THEN {} ELSE [has |-> BrushStep(s, e).has, shown |-> Target(BrushStep(s, e)), act |-> IF e.op = "brush" THEN Under(s, s.on[Of(s, e.name)].o, e) ELSE {}]]
BrushInv(s) == /\ \A h \in s.has : \E i \in 1..Len(s.rows) : s.rows[i].k = h[2]
               /\ \A i \in 1..Len(s.on) : (s.on[i].o.kind # "brush-filter" => ~s.on[i].f.on)
=============================================================================
