------------------------------- MODULE Gadget -------------------------------
(* Titles, labels, sliders, scrollbars, players and data zooms.  State: two data sets, the scales of the preview, the    *)
(* sizes of two groups, the options of each component and the theme.  Each evaluation shows what they imply.            *)
EXTENDS Util
None == 0 - 1
Gadget0(cfg) == [d |-> cfg.d, x |-> cfg.x, grp |-> cfg.grp, con |-> cfg.con, ti |-> cfg.ti, lb |-> cfg.lb, sl |-> cfg.sl, sb |-> cfg.sb, pl |-> cfg.pl, dz |-> cfg.dz, th |-> cfg.th, skip |-> cfg.skip]
GadgetStep(s, e) ==
  CASE e.op = "data" -> [s EXCEPT !.d[e.k] = e.v]
    [] e.op = "scale" -> [s EXCEPT !.x = e.v]
    [] e.op = "grp" -> [s EXCEPT !.grp = e.v]
    [] e.op = "con" -> [s EXCEPT !.con = e.v]
    [] e.op = "title" -> [s EXCEPT !.ti[e.k] = e.v]
    [] e.op = "label" -> [s EXCEPT !.lb[e.k] = e.v]
    [] e.op = "slider" -> [s EXCEPT !.sl[e.k] = e.v]
    [] e.op = "scrollbar" -> [s EXCEPT !.sb[e.k] = e.v]
    [] e.op = "player" -> [s EXCEPT !.pl[e.k] = e.v]
    [] e.op = "zoom" -> [s EXCEPT !.dz = e.v]
    [] e.op = "theme" -> [s EXCEPT !.th = e.v]
    [] OTHER -> s
Tag(s, o, key) == IF o # "" THEN o ELSE IF s.skip THEN "" ELSE s.th \o key
(* ---- scrollbars: a missing or impossible position follows the direction, a missing direction the position ---- *)
HPos(p) == p \in {"top", "bottom"}
Dir(b) == IF b.dir # "" THEN b.dir ELSE IF b.pos # "" /\ ~HPos(b.pos) THEN "vertical" ELSE "horizontal"
Pos(b) == LET h == Dir(b) = "horizontal" IN IF b.pos # "" /\ HPos(b.pos) = h THEN b.pos ELSE IF h THEN "bottom" ELSE "right"
ThemeSize(s) == IF s.skip \/ s.th # "t1" THEN 12 ELSE 14
Bar(s) ==
  LET b == s.sb  size == IF b.con THEN s.con ELSE s.grp  t == IF b.size # None THEN b.size ELSE ThemeSize(s) IN
  IF Dir(b) = "horizontal" THEN [x |-> 0, y |-> IF Pos(b) = "top" THEN 0 ELSE size[2] - t, w |-> size[1], h |-> t]
  ELSE [x |-> IF Pos(b) = "left" THEN 0 ELSE size[1] - t, y |-> 0, w |-> t, h |-> size[2]]
(* ---- labels: one entry per datum of each target, in the order of its elements ---- *)
Source(m) == IF m = "S" THEN "E" ELSE "D"
LabelTheme(m) == IF m = "R" THEN "rectLabel" ELSE IF m = "S" THEN "symbolLabel" ELSE "lineDataLabel"
Text(s, r) == IF s.lb.text = "k" THEN r.k ELSE ToString(r.v)
LabelOf(s, m, i) == [m |-> m, i |-> i - 1, style |-> s.lb.style, tag |-> IF s.skip THEN "" ELSE s.th \o LabelTheme(m), texts |-> Map(s.d[Source(m)], LAMBDA r : Text(s, r)),
                     base |-> IF m = "N" THEN 1 ELSE Len(s.d[Source(m)])]
Labels(s) == [i \in 1..Len(s.lb.tg) |-> LabelOf(s, s.lb.tg[i], i)]
LabelSize(s) == IF s.lb.size # <<>> THEN s.lb.size ELSE s.grp
(* ---- data zoom ---- *)
PX(s, r) == (r.v * s.x.rx) \div s.x.dx
PY(s, r) == s.x.my * (IF s.dz.y = "v" THEN r.v ELSE r.w)
Wrong(c, name) == IF c THEN {name} ELSE {}
Bad(s, e) ==
  LET b == Bar(s)  lo == IF s.sl.lo = None THEN 0 ELSE s.sl.lo  hi == IF s.sl.hi = None THEN 1 ELSE s.sl.hi  rows == s.d[s.dz.src] IN
  Wrong(e.title.text # s.ti.text \/ e.title.sub # s.ti.sub, "title text") \cup Wrong(e.title.tag # Tag(s, s.ti.own, "title"), "title theme")
  \cup Wrong(e.slider.lo # lo \/ e.slider.hi # hi, "slider extent") \cup Wrong(e.slider.value # (IF s.sl.value # <<>> THEN s.sl.value ELSE <<lo, hi>>), "slider value")
  \cup Wrong(e.slider.tag # Tag(s, s.sl.own, "slider"), "slider theme")
  \cup Wrong(e.scrollbar.dir # Dir(s.sb), "scrollbar direction") \cup Wrong(e.scrollbar.box # <<b.x, b.y, b.w, b.h>>, "scrollbar box") \cup Wrong(e.scrollbar.tag # Tag(s, s.sb.own, "scrollbar"), "scrollbar theme")
  \cup Wrong(e.player.ks # Map(s.d[s.pl.src], LAMBDA r : r.k), "player data") \cup Wrong(e.player.kind # (IF s.pl.type = "continuous" THEN "continuousPlayer" ELSE "discretePlayer"), "player kind")
  \cup Wrong(e.player.index # (IF s.pl.index = None THEN 0 ELSE s.pl.index), "player index")
  \cup Wrong(e.player.tag # Tag(s, s.pl.own, IF s.pl.type = "continuous" THEN "continuousPlayer" ELSE "discretePlayer"), "player theme")
  \cup Wrong(e.zoom.ks # Map(rows, LAMBDA r : r.k), "zoom data") \cup Wrong(e.zoom.tag # Tag(s, "", "datazoom"), "zoom theme")
  \cup Wrong(e.zoom.xs # Map(rows, LAMBDA r : PX(s, r)) \/ e.zoom.ys # Map(rows, LAMBDA r : PY(s, r)), "zoom preview")
  \cup Wrong(e.zoom.inv # [i \in 1..5 |-> 250 * (i - 1) * s.x.dx], "zoom values")
  \cup Wrong(e.label.labels # Labels(s), "labels") \cup Wrong(e.label.size # LabelSize(s), "label size") \cup Wrong(e.label.tag # Tag(s, "", "dataLabel"), "label theme")
GadgetAccept(s, e) == e.op # "threw" /\ (e.op = "run" => Bad(s, e) = {})
GadgetExplain(s, e) == IF e.op = "run" THEN [wrong |-> Bad(s, e), want |-> <<Bar(s), Labels(s)>>, st |-> s] ELSE [wrong |-> {e.op}, want |-> <<>>, st |-> s]
GadgetInv(s) == /\ s.pl.src \in DOMAIN s.d /\ s.dz.src \in DOMAIN s.d
                /\ LET b == Bar(s)  z == IF s.sb.con THEN s.con ELSE s.grp IN b.x >= 0 /\ b.y >= 0 /\ b.x + b.w = (IF Pos(s.sb) = "left" THEN b.w ELSE z[1]) /\ b.y + b.h = (IF Pos(s.sb) = "top" THEN b.h ELSE z[2])
=============================================================================
