------------------------------- MODULE Guide -------------------------------
(* Axes, grids and legends.  State: a coordinate, scales (domain, range, bound to the coordinate or not), the options   *)
(* of one axis, one grid and one legend, and the theme.  At every evaluation the three components must show exactly      *)
(* what the current scales, options, target axis and theme imply; nothing may be left over from an earlier state.       *)
EXTENDS Util
Guide0(cfg) == [co |-> cfg.co, sc |-> cfg.sc, ax |-> cfg.ax, gr |-> cfg.gr, lg |-> cfg.lg, th |-> cfg.th, skip |-> cfg.skip, sig |-> cfg.sig, asig |-> cfg.asig, gsig |-> cfg.gsig, base |-> cfg.base]
GuideStep(s, e) ==
  CASE e.op = "co" -> [s EXCEPT !.co.v = e.v]
    [] e.op = "dom" -> [s EXCEPT !.sc[e.s].dom = e.v]
    [] e.op = "rng" -> [s EXCEPT !.sc[e.s].rng = e.v]
    [] e.op = "bind" -> [s EXCEPT !.sc[e.s].rev = e.rev, !.sc[e.s].sub = e.sub]
    [] e.op = "axis" -> [s EXCEPT !.ax[e.k] = e.v]
    [] e.op = "grid" -> [s EXCEPT !.gr[e.k] = e.v]
    [] e.op = "legend" -> [s EXCEPT !.lg[e.k] = e.v]
    [] e.op = "ltype" -> [s EXCEPT !.lg.type = e.v, !.lg.scale = e.s]
    [] e.op = "theme" -> [s EXCEPT !.th = e.v]
    [] e.op = "base" -> [s EXCEPT !.base = e.v]
    [] e.op = "sig" -> [s EXCEPT !.sig = e.v]
    [] OTHER -> s
(* ---- ranges the driver gives the scales (index s.sc[x].rng) ---- *)
Reds == <<"#ff0000", "#00ff00">>
Blues == <<"#0000ff", "#ffff00", "#00ffff">>
Colors(sc) == IF sc.rng = 0 THEN Reds ELSE Blues
Stops(sc) == SubSeq(IF sc.rng = 0 THEN <<"#ff0000", "#00ff00", "#ff00ff">> ELSE Blues, 1, Len(sc.dom))   (* colours of a continuous scale, one per domain value *)
Shapes(sc) == IF sc.rng = 0 THEN <<"circle", "square", "diamond">> ELSE <<"star", "wye">>
Cyc(r, i) == r[((i - 1) % Len(r)) + 1]
Bound(x) == x \in {"lx", "ly"}
(* ---- what kind of component a scale calls for ---- *)
Kind(s, x) == IF s.co.t = "polar" /\ x = "lx" THEN "circle" ELSE "line"
Cart(s) == [a |-> s.co.v[1], b |-> s.co.v[2], c |-> s.co.v[3], d |-> s.co.v[4]]
None == 0 - 1
(* a polar coordinate: the corners of its box and its origin; it fills the box around the origin *)
Origin(s) == <<s.co.v[5], s.co.v[6]>>
Radius(s) == SetMin({Abs(s.co.v[i] - s.co.v[5]) : i \in {1, 3}} \cup {Abs(s.co.v[i] - s.co.v[6]) : i \in {2, 4}})
Pts(s, x, base) ==
  LET c == Cart(s)  sc == s.sc[x]
      p == IF x = "lx" THEN LET y == IF base # None THEN base ELSE IF sc.sub THEN c.b ELSE c.d IN <<<<c.a, y>>, <<c.c, y>>>>
           ELSE LET z == IF base # None THEN base ELSE IF sc.sub THEN c.c ELSE c.a IN <<<<z, c.d>>, <<z, c.b>>>>
  IN IF sc.rev THEN <<p[2], p[1]>> ELSE p
Neg(b) == IF b THEN 0 - 1 ELSE 1
Side(s, x) == IF s.co.t = "polar" THEN "other" ELSE IF x = "lx" THEN (IF s.sc[x].sub THEN "top" ELSE "bottom") ELSE IF s.sc[x].sub THEN "right" ELSE "left"
Factor(s, x, ins) == Neg(Side(s, x) \in {"top", "left"}) * Neg(ins) * Neg(s.sc[x].rev)
T(a, b) == a - b \in (0 - 2)..2
NearP(p, q) == T(p[1], q[1]) /\ T(p[2], q[2])
K(p) == <<1000 * p[1], 1000 * p[2]>>
TickKey(n) == IF n = None THEN "d" ELSE IF n = 2 THEN "2" ELSE IF n = 3 THEN "3" ELSE IF n = 5 THEN "5" ELSE "8"
GrBase(s) == IF s.gsig THEN s.base ELSE s.gr.base
AxTick(s) == IF s.asig THEN s.sig ELSE s.ax.tick
(* ---- the components ---- *)
Tag(s, o, key) == IF o # "" THEN o ELSE IF s.skip THEN "" ELSE s.th \o key
Place(s, x, ins, base, o, e) ==   (* o: observed; geometry of an axis or grid bound to the coordinate *)
  IF Kind(s, x) = "circle"
  THEN o.center = K(Origin(s)) /\ o.inner = 0 /\ o.radius = 1000 * Radius(s) /\ o.a0 = 0 /\ o.a1 = 6283 /\ o.inside = ins
  ELSE /\ LET p == IF s.co.t = "polar" THEN e.pts[IF base = None THEN "none" ELSE IF base = 1 THEN "b1" ELSE IF base = 7 THEN "b7" ELSE "b30"] ELSE Map(Pts(s, x, base), K) IN NearP(o.start, p[1]) /\ NearP(o.end, p[2])
       /\ o.factor = Factor(s, x, ins)
AxisBad(s, e) ==
  LET o == e.axis  x == s.ax.scale IN
  (IF o.items # e.ticks[x][TickKey(AxTick(s))] \/ ~o.nest THEN {"axis items"} ELSE {})
  \cup (IF o.kind # Kind(s, x) THEN {"axis kind"} ELSE {})
  \cup (IF o.tag # Tag(s, s.ax.own, IF Kind(s, x) = "circle" THEN "circleAxis" ELSE "axis") THEN {"axis theme"} ELSE {})
  \cup (IF o.pos # K(s.ax.pos) THEN {"axis position"} ELSE {})
  \cup (IF Bound(x) /\ ~Place(s, x, s.ax.ins, s.ax.base, o, e) THEN {"axis place"} ELSE {})
GridBad(s, e) ==
  LET o == e.grid  x == IF s.gr.tgt THEN s.ax.scale ELSE s.gr.scale  k == Kind(s, x) IN
  (IF o.items # e.ticks[x][TickKey(s.gr.tick)] \/ o.nest THEN {"grid items"} ELSE {})
  \cup (IF o.kind # k THEN {"grid kind"} ELSE {})
  \cup (IF o.tag # Tag(s, s.gr.own, IF k = "circle" THEN "circleGrid" ELSE "grid") THEN {"grid theme"} ELSE {})
  \cup (IF s.gr.tgt
        THEN (IF o.pos # e.axis.pos THEN {"grid position"} ELSE {})
             \cup (IF Bound(x) /\ (IF k = "circle" THEN <<o.center, o.inner, o.radius, o.a0, o.a1, o.inside>> # <<e.axis.center, e.axis.inner, e.axis.radius, e.axis.a0, e.axis.a1, e.axis.inside>>
                     ELSE <<o.start, o.end, o.factor>> # <<e.axis.start, e.axis.end, e.axis.factor>>) THEN {"grid and axis"} ELSE {})
        ELSE IF Bound(x) /\ ~Place(s, x, s.gr.ins, GrBase(s), o, e) THEN {"grid place"} ELSE {})
  \cup (IF k = "line" /\ (o.type # s.gr.shape \/ (s.gr.shape # "line" /\ Bound(x) /\ (~o.closed \/ o.center # (IF s.co.t = "polar" /\ ~s.gr.tgt THEN K(Origin(s)) ELSE o.start))))
        THEN {"grid shape"} ELSE {})
Auto(s) == IF s.lg.type # "auto" THEN s.lg.type ELSE IF s.lg.scale = "ln" THEN "size" ELSE IF s.lg.scale = "lc" THEN "color" ELSE "discrete"
LegendItem(s, d, i) ==
  LET x == s.lg.scale  sc == s.sc[x]
      sym == IF s.lg.shape = "" \/ d \notin Range(s.sc[s.lg.shape].dom) THEN "" ELSE Cyc(Shapes(s.sc[s.lg.shape]), Index(s.sc[s.lg.shape].dom, d))
      col == IF x = "oc" THEN Cyc(Colors(sc), i) ELSE ""
  IN [label |-> d, id |-> d, index |-> i - 1, fill |-> col, stroke |-> col, sym |-> sym, tag |-> IF s.skip THEN "" ELSE s.th]
(* an ordinal shape scale adds values it does not know to its own domain: their shape is not judged *)
Known(s, q) == IF s.lg.shape # "" /\ q.id \notin Range(s.sc[s.lg.shape].dom) THEN [q EXCEPT !.sym = "?"] ELSE q
LegendBad(s, e) ==
  LET o == e.legend  k == Auto(s)  x == s.lg.scale  dom == s.sc[x].dom  u == Uniq(dom) IN
  (IF o.kind # k THEN {"legend kind"} ELSE {})
  \cup (IF o.tag # Tag(s, s.lg.own, k \o "Legend") THEN {"legend theme"} ELSE {})
  \cup (IF k = "discrete" /\ Map(o.items, LAMBDA q : Known(s, q)) # [i \in 1..Len(u) |-> Known(s, LegendItem(s, u[i], i))] THEN {"legend items"} ELSE {})
  \cup (IF k # "discrete" /\ (o.min # dom[1] \/ o.max # dom[Len(dom)]) THEN {"legend extent"} ELSE {})
  \cup (IF k = "size" /\ o.value # <<dom[1], dom[Len(dom)]>> THEN {"legend value"} ELSE {})
  \cup (IF k = "color" /\ o.colors # Stops(s.sc[x]) THEN {"legend colours"} ELSE {})
DomOf(s, x) == IF x \in {"oc", "oz", "os", "bd"} THEN Uniq(s.sc[x].dom) ELSE s.sc[x].dom
ScaleBad(s, e) == IF \E x \in DOMAIN s.sc \ {"os"} : e.dom[x] # DomOf(s, x) THEN {"domain"} ELSE {}
Bad(s, e) == ScaleBad(s, e) \cup AxisBad(s, e) \cup GridBad(s, e) \cup LegendBad(s, e)
GuideAccept(s, e) == e.op # "threw" /\ (e.op = "run" => Bad(s, e) = {})
GuideExplain(s, e) == IF e.op = "run" THEN [wrong |-> Bad(s, e), tick |-> AxTick(s), st |-> s] ELSE [wrong |-> {e.op}, tick |-> 0, st |-> s]
GuideInv(s) == /\ s.ax.scale \in DOMAIN s.sc /\ s.gr.scale \in DOMAIN s.sc /\ s.lg.scale \in DOMAIN s.sc
               /\ (s.ax.tick = None \/ s.ax.tick > 0)
=============================================================================
