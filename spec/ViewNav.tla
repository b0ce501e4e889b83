------------------------------- MODULE ViewNav -------------------------------
(* Moving about in a view: zoom, drag, scroll and roam keep one window in [0,1] for each dimension.                    *)
(* Windows and ratios are integers, a millionth of the whole each; travels and sizes are whole pixels.                 *)
EXTENDS Util
U == 1000000
TOL == 40
D2 == {"x", "y"}
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Fr(n, d) == LET g == Gcd(n, d) IN <<n \div g, d \div g>>
Clamp(v) == Max2(0, Min2(U, v))
Whole == <<0, U>>
(* ---- one window ---- *)
Zoom(w, f, r) ==
  LET d == w[2] - w[1]
      v == RoundDiv(d * (f[1] - f[2]) * r[1], 2 * f[2] * r[2])
      a == Clamp(w[1] - v)  b == Clamp(w[2] + v)
  IN IF (d >= U /\ f[1] >= f[2]) \/ (d <= U \div 1000 /\ f[1] <= f[2]) THEN w ELSE <<Min2(a, b), Max2(a, b)>>
Move(w, px, size, rev) ==
  LET v == IF rev THEN -px ELSE px
      s == RoundDiv(v * U, size)
      m == IF v > 0 THEN Min2(U - w[2], s) ELSE Max2(-w[1], s)
  IN IF v = 0 \/ w[2] - w[1] >= U THEN w ELSE <<w[1] + m, w[2] + m>>
(* ---- state ---- *)
Live(c) == {d \in D2 : c[d].mode # "off"}
First(c, d) == IF c[d].mode \in {"factor", "range", "fn", "comp", "bar"} THEN <<c[d].lo, c[d].hi>> ELSE Whole
NavState(c, w) == [cfg |-> c, on |-> TRUE, w |-> w, zs |-> FALSE, zp |-> <<>>, ds |-> <<>>, it |-> FALSE, sg |-> FALSE, sp |-> [x |-> 0, y |-> 0], hot |-> {}, bad |-> FALSE]
ViewNav0(c) == NavState(c, [d \in D2 |-> First(c, d)])
Each(s, F(_, _)) == [s EXCEPT !.w = [d \in D2 |-> IF d \in Live(s.cfg) THEN F(d, s.w[d]) ELSE s.w[d]]]
ZoomBy(s, f) == Each(s, LAMBDA d, w : Zoom(w, f, s.cfg.zoom.rate))
MoveBy(s, x, y, rev) == Each(s, LAMBDA d, w : Move(w, IF d = "x" THEN x ELSE y, s.cfg[d].size, rev))
(* zooming by a gesture whose factor is f, all at once or when the pointer is up *)
DoZoom(s, e) ==
  IF ~s.cfg.zoom.on THEN s
  ELSE LET z == [s EXCEPT !.zs = TRUE] IN
    IF e.f = <<>> THEN z ELSE IF s.cfg.zoom.rt THEN ZoomBy(z, e.f)
    ELSE [z EXCEPT !.zp = IF @ = <<>> THEN e.f ELSE Fr(@[1] * e.f[1], @[2] * e.f[2])]
EndZoom(s) == IF ~s.cfg.zoom.on \/ s.zp = <<>> THEN s ELSE [ZoomBy(s, s.zp) EXCEPT !.zp = <<>>]
DoScroll(s, e) ==
  IF ~s.cfg.scroll.on THEN s
  ELSE LET z == [s EXCEPT !.sg = TRUE] IN
    IF e.f # <<>> \/ (e.dx = 0 /\ e.dy = 0) THEN z
    ELSE IF s.cfg.scroll.rt THEN MoveBy(z, e.dx, e.dy, s.cfg.scroll.rev) ELSE [z EXCEPT !.sp = [x |-> @.x + e.dx, y |-> @.y + e.dy]]
EndScroll(s) == IF ~s.cfg.scroll.on \/ ~s.sg THEN s ELSE [MoveBy(s, s.sp.x, s.sp.y, s.cfg.scroll.rev) EXCEPT !.sp = [x |-> 0, y |-> 0], !.sg = FALSE]
DoDown(s, e) == IF ~s.cfg.drag.on \/ (s.ds # <<>> /\ s.ds[3] # e.p) THEN s ELSE [s EXCEPT !.ds = <<e.x, e.y, e.p>>]
DoMove(s, e) ==
  IF ~s.cfg.drag.on \/ s.ds = <<>> \/ s.ds[3] # e.p \/ ~s.cfg.drag.rt THEN s
  ELSE [MoveBy(s, e.x - s.ds[1], e.y - s.ds[2], s.cfg.drag.rev) EXCEPT !.ds = <<e.x, e.y, e.p>>]
EndDrag(s, e) ==
  IF ~s.cfg.drag.on \/ s.ds = <<>> THEN s
  ELSE [(IF s.cfg.drag.rt THEN s ELSE MoveBy(s, e.x - s.ds[1], e.y - s.ds[2], s.cfg.drag.rev)) EXCEPT !.ds = <<>>]
Back(c, d, w) == IF c[d].mode = "range" THEN <<c[d].lo, c[d].hi>> ELSE Whole
DoReset(s) == IF ~s.cfg.zoom.on \/ ~s.zs THEN s ELSE [Each(s, LAMBDA d, w : Back(s.cfg, d, w)) EXCEPT !.zs = FALSE, !.zp = <<>>]
(* an interaction that goes leaves no window behind where it made one *)
Gone(s, d) == IF s.it /\ s.cfg[d].mode \in {"scale", "factor", "data"} THEN Whole ELSE s.w[d]
Again(c, d, w) == IF c[d].mode = "range" THEN <<c[d].lo, c[d].hi>> ELSE IF c[d].mode = "none" THEN Whole ELSE w
Apply(s, e) ==
  CASE e.op = "wheel" -> DoScroll(DoZoom(s, e), e)
    [] e.op = "down" -> DoDown(s, e)
    [] e.op = "move" -> DoMove(s, e)
    [] e.op = "up" -> EndDrag(EndScroll(EndZoom(s)), e)
    [] e.op = "dbl" -> DoReset(s)
    [] OTHER -> s
Known == {"wheel", "down", "move", "up", "dbl", "unbind", "bind", "rows"}
ViewNavStep(s, e) ==
  IF e.op \notin Known THEN [s EXCEPT !.bad = TRUE]
  ELSE IF e.op = "unbind" THEN [(IF s.on THEN NavState(s.cfg, [d \in D2 |-> Gone(s, d)]) ELSE s) EXCEPT !.on = FALSE]
  ELSE IF e.op = "bind" THEN (IF s.on THEN s ELSE NavState(s.cfg, [d \in D2 |-> Again(s.cfg, d, s.w[d])]))
  ELSE IF e.op = "rows" THEN [s EXCEPT !.cfg.rows = e.rows, !.hot = {}]
  ELSE IF ~s.on THEN [s EXCEPT !.hot = {}]
  ELSE LET n == Apply(s, e) IN [n EXCEPT !.it = @ \/ (e.op = "wheel" /\ (s.cfg.zoom.on \/ s.cfg.scroll.on)) \/ (e.op = "down" /\ s.cfg.drag.on), !.hot = {d \in D2 : Abs(n.w[d][1] - s.w[d][1]) > TOL \/ Abs(n.w[d][2] - s.w[d][2]) > TOL}]
(* ---- what is seen ---- *)
Near(a, b) == Abs(a - b) <= TOL
Same(w, o) == Len(o) = 2 /\ Near(w[1], o[1]) /\ Near(w[2], o[2])
(* windows that something in the view shows: the factor of a scale, a component, what a listener was told last *)
WinOK(s, e) == \A d \in Live(s.cfg) :
  IF s.cfg[d].mode \in {"scale", "factor", "comp", "bar"} THEN Same(s.w[d], e.win[d])
  ELSE IF s.cfg[d].mode = "fn" /\ s.on THEN Same(s.w[d], e.win[d]) ELSE TRUE
Ratio(r, d) == IF d = "x" THEN r.rx ELSE r.ry
(* a scale with a window spreads the window over its range *)
PosOK(s, e) == \A d \in Live(s.cfg) : (s.cfg[d].mode \in {"scale", "factor"} /\ s.w[d][2] - s.w[d][1] >= U \div 20) =>
  \A i \in 1..Len(e.pos[d]) :
    LET q == Ratio(CHOOSE r \in Range(s.cfg.rows) : r.k = e.seen[i], d)
        k == s.w[d][2] - s.w[d][1]
    IN Abs(e.pos[d][i] - RoundDiv((q - s.w[d][1]) * s.cfg[d].size, k \div 10)) <= 5 + (20 * TOL * s.cfg[d].size) \div (k \div 10)
InW(q, w) == w = Whole \/ (q >= w[1] /\ q <= w[2])
Edge(q, w) == w # Whole /\ (Near(q, w[1]) \/ Near(q, w[2]))
(* a band is told by its edge towards the start of the view, that is the far one where the range runs backwards *)
Where(s, r, d) == Ratio(r, d) + (IF s.cfg.api = "id" /\ s.cfg[d].sc = "band" /\ s.cfg[d].flip THEN U \div 10 ELSE 0)
Filters(s) == {d \in Live(s.cfg) : s.on /\ s.cfg[d].mode = "data"}
RowsOK(s, e) == \A r \in Range(s.cfg.rows) :
  LET in == \A d \in Filters(s) : InW(Where(s, r, d), s.w[d])
      edge == \E d \in Filters(s) : Edge(Where(s, r, d), s.w[d])
      sure == \A d \in Filters(s) : Edge(Where(s, r, d), s.w[d]) \/ InW(Where(s, r, d), s.w[d])
  IN (edge /\ sure) \/ ((r.k \in Range(e.seen)) <=> in)
NewRows(s, e) == Range(e.seen) \subseteq {r.k : r \in Range(s.cfg.rows)}
(* listeners hear the windows as they are, and hear of every change *)
TellOK(s, e) ==
  /\ \A i \in 1..Len(e.told) : \A d \in D2 : e.told[i][d] # <<>> => s.on /\ d \in Live(s.cfg) /\ (i = Len(e.told) => Same(s.w[d], e.told[i][d]))
  /\ \A d \in s.hot : \E i \in 1..Len(e.told) : Same(s.w[d], e.told[i][d])
  /\ (~s.on => e.told = <<>>)
  /\ \A i \in 1..Len(e.told) : (e.told[i].ty = "reset") <=> (e.op = "dbl")
ViewNavAccept(s0, e) == LET s == ViewNavStep(s0, e) IN ~s.bad /\ (e.op \in Known => NewRows(s, e) /\ RowsOK(s, e) /\ WinOK(s, e) /\ PosOK(s, e) /\ TellOK(s, e))
ViewNavExplain(s0, e) == LET s == ViewNavStep(s0, e) IN [w |-> s.w, on |-> s.on, hot |-> s.hot, win |-> WinOK(s, e), pos |-> NewRows(s, e) /\ PosOK(s, e), rows |-> RowsOK(s, e), told |-> TellOK(s, e)]
ViewNavInv(s) == \A d \in D2 : 0 <= s.w[d][1] /\ s.w[d][1] <= s.w[d][2] /\ s.w[d][2] <= U
=============================================================================
