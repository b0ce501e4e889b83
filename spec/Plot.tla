-------------------------------- MODULE Plot --------------------------------
(* A plot: semantic marks with data, channels, options of the scales they share and a style, laid over a box of W x H, *)
(* possibly through a transposed cartesian coordinate.  What each run draws is a function of the plot as it is then.   *)
(* Positions are in thousandths; categories and colours are integer codes (1..pn: the palette; 0: none).               *)
EXTENDS Scale
NOSTYLE == [fill |-> 0, stroke |-> 0, max |-> NAI, min |-> NAI, ig |-> <<"px", 0>>, cat |-> <<"pct", 20>>]
PMark(m) == [t |-> m.t, did |-> m.did, rows |-> m.rows, enc |-> m.enc, sc |-> m.sc, sty |-> m.sty]
Plot0(cfg) == [w |-> cfg.w, h |-> cfg.h, pn |-> cfg.pn, tr |-> "none", ms |-> <<>>]

DataOf(s, i) == IF s.ms[i].did = "" THEN "own" \o ToString(i) ELSE s.ms[i].did
(* marks may share a data set by its name *)
PRows(s, i) == LET j == SetMin({x \in 1..Len(s.ms) : DataOf(s, x) = DataOf(s, i)}) IN s.ms[j].rows
KeyOf(m, ch) == IF Has(m.sc, ch) /\ Has(m.sc[ch], "id") THEN m.sc[ch].id ELSE ch
Channels == <<"x", "y", "color", "group", "stroke", "size">>
Members(s, key) == LET RECURSIVE go(_, _)
                       go(i, j) == IF i > Len(s.ms) THEN <<>> ELSE IF j > Len(Channels) THEN go(i + 1, 1)
                                   ELSE (IF Has(s.ms[i].enc, Channels[j]) /\ KeyOf(s.ms[i], Channels[j]) = key THEN <<<<i, Channels[j]>>>> ELSE <<>>) \o go(i, j + 1)
                   IN go(1, 1)
DefaultType(t, ch) == CASE ch = "x" -> (IF t \in {"interval", "rect", "rectX", "rectY"} THEN "band" ELSE "point")
                        [] ch \in {"y", "size"} -> "linear" [] OTHER -> "ordinal"
(* options given through any of the marks that share the scale apply; the latest mark wins *)
UserOpt(s, ms, o, dflt) == LET S == {x \in 1..Len(ms) : LET m == s.ms[ms[x][1]] IN Has(m.sc, ms[x][2]) /\ Has(m.sc[ms[x][2]], o)} IN
                           IF S = {} THEN dflt ELSE s.ms[ms[SetMax(S)][1]].sc[ms[SetMax(S)][2]][o]
Shared(s, ms) ==
  LET dids == Uniq(Map(ms, LAMBDA x : DataOf(s, x[1])))
      of(d) == Filter(ms, LAMBDA x : DataOf(s, x[1]) = d)
      fields(d) == Uniq(Concat(Map(of(d), LAMBDA x : s.ms[x[1]].enc[x[2]])))
  IN Concat(Map(dids, LAMBDA d : Concat(Map(fields(d), LAMBDA f : Field(PRows(s, of(d)[1][1]), f)))))
Wide(s) == IF s.tr = "swap" THEN s.h ELSE s.w
High(s) == IF s.tr = "swap" THEN s.w ELSE s.h
ScaleFor(s, key) ==
  LET ms == Members(s, key) ch == ms[1][2]
      type == UserOpt(s, ms, "type", DefaultType(s.ms[ms[1][1]].t, ch))
      vs == Shared(s, ms)
      own == UserOpt(s, ms, "dom", <<>>)
      dom == IF own # <<>> THEN own ELSE IF Continuous(type) THEN Extent(vs) ELSE vs
      rng == UserOpt(s, ms, "rng", CASE ch = "x" -> <<0, Wide(s)>> [] ch = "y" -> <<High(s), 0>> [] ch = "size" -> <<10, 10>> [] OTHER -> [i \in 1..s.pn |-> i])
      opt(o) == UserOpt(s, ms, o, NAI)
  IN [type |-> type, dom |-> [k |-> "arr", v |-> dom], rng |-> [k |-> "arr", v |-> rng], rf |-> <<>>, a |-> <<>>, b |-> <<>>, sig |-> 0, w |-> 0, h |-> 0,
      opt |-> [zero |-> [c |-> opt("zero")], min |-> [c |-> opt("min")], max |-> [c |-> opt("max")], padding |-> [c |-> opt("padding")]]]

Half(x) == RoundDiv(x, 2)
Band(sc) == IF Banded(sc.type) THEN BandGeo(sc).bw ELSE 0
Base(sc) == LET d == Range(Domain(sc)) IN IF SetMin(d) > 0 THEN SetMin(d) ELSE IF SetMax(d) < 0 THEN SetMax(d) ELSE 0
(* what a channel of a mark does to the values of its fields *)
Chan(s, i, ch) ==
  LET m == s.ms[i] sc == TLCEval(ScaleFor(s, KeyOf(m, ch))) rs == PRows(s, i)
      vals == {rs[j][m.enc[ch][f]] : j \in 1..Len(rs), f \in 1..Len(m.enc[ch])}
  IN [at |-> [v \in vals |-> At(sc, v)], bw |-> Band(sc), room |-> IF sc.type = "point" THEN BandGeo(sc).step ELSE Band(sc), cont |-> Continuous(sc.type), base |-> IF Continuous(sc.type) /\ rs # <<>> THEN At(sc, Base(sc)) ELSE 0]
Chans(s, i) == [ch \in DOMAIN s.ms[i].enc \ {"text"} |-> TLCEval(Chan(s, i, ch))]
Mid(c, x) == c.at[x] + Half(c.bw)
Other(c, x) == IF c.cont THEN c.base ELSE c.at[x] + c.bw
Pct(g, whole) == IF g[1] = "px" THEN g[2] * 1000 ELSE RoundDiv(whole * g[2], 100)
(* the bars of one category share its band side by side *)
(* (through a transposed coordinate they are still laid out from top to bottom) *)
Bar(m, rs, c, row, swap) ==
  LET bw == c.room mid == Mid(c, row[m.enc.x[1]])
      gs == IF Has(m.enc, "group") THEN Uniq(Field(rs, m.enc.group[1])) ELSE <<0>>
      n == Len(gs) idx == IF Has(m.enc, "group") THEN Index(gs, row[m.enc.group[1]]) ELSE 1
      gap == Pct(m.sty.cat, bw) inner0 == IF gap >= bw THEN bw ELSE bw - gap
      ig == Pct(m.sty.ig, inner0) size0 == RoundDiv(inner0 - (n - 1) * ig, n)
      size == IF m.sty.max # NAI /\ size0 > m.sty.max * 1000 THEN m.sty.max * 1000
              ELSE IF m.sty.min # NAI /\ size0 < m.sty.min * 1000 /\ m.sty.min * 1000 * n <= bw THEN m.sty.min * 1000 ELSE size0
      inner == inner0 + (size - size0) * n
      x == IF swap THEN mid + Half(inner) - (idx - 1) * (size + ig) - size ELSE mid - Half(inner) + (idx - 1) * (size + ig)
  IN IF bw = 0 THEN <<mid, mid>> ELSE <<x, x + size>>
(* the two ends of a mark along one axis *)
Ends(s, m, rs, R, ch, row) ==
  LET fs == m.enc[ch] c == R[ch] f == fs[1] one == Len(fs) = 1 both == <<c.at[row[fs[1]]], c.at[row[fs[Len(fs)]]]>> IN
  CASE m.t = "interval" /\ ch = "x" -> Bar(m, rs, c, row, s.tr = "swap")
    [] m.t = "area" /\ ch = "x" -> IF one THEN <<Mid(c, row[f]), NAI>> ELSE both
    [] m.t = "area" -> IF one THEN (IF Len(m.enc.x) = 1 THEN <<Mid(c, row[f]), c.base>> ELSE <<Mid(c, row[f]), NAI>>) ELSE both
    [] m.t \in {"interval", "rect", "rectX", "rectY"} -> IF one THEN <<c.at[row[f]], Other(c, row[f])>> ELSE both
    [] m.t \in {"rule", "ruleX", "ruleY"} -> IF one THEN <<Mid(c, row[f]), Mid(c, row[f])>> ELSE both
    [] OTHER -> <<Mid(c, row[f]), NAI>>
XEnds(s, m, rs, R, row) == IF m.t = "rectY" \/ (m.t = "ruleY" /\ (~Has(m.enc, "x") \/ Len(m.enc.x) = 1)) THEN <<0, s.w * 1000>> ELSE Ends(s, m, rs, R, "x", row)
YEnds(s, m, rs, R, row) == IF m.t \in {"rectX", "ruleX"} THEN <<0, s.h * 1000>> ELSE Ends(s, m, rs, R, "y", row)
Colour(m, R, ch, row) == R[ch].at[row[m.enc[ch][1]]] \div 1000
Lines == {"line", "rule", "ruleX", "ruleY"}
Main(m, R, row) == LET own == IF m.t \in Lines THEN m.sty.stroke ELSE m.sty.fill IN
  IF Has(m.enc, "color") THEN Colour(m, R, "color", row) ELSE IF Has(m.enc, "group") THEN Colour(m, R, "group", row) ELSE IF own # 0 THEN own ELSE 1
Second(m, R, row) == IF m.t \in Lines THEN 0 ELSE IF Has(m.enc, "stroke") THEN Colour(m, R, "stroke", row) ELSE m.sty.stroke
Flip(v, len) == IF v = NAI THEN NAI ELSE len * 1000 - v
Point(s, m, rs, R, row) ==
  LET x0 == XEnds(s, m, rs, R, row) y0 == YEnds(s, m, rs, R, row)
      \* through a coordinate both ends of an area have both positions
      full == s.tr # "none" /\ m.t = "area"
      x == IF full /\ x0[2] = NAI THEN <<x0[1], x0[1]>> ELSE x0
      y == IF full /\ y0[2] = NAI THEN <<y0[1], y0[1]>> ELSE y0
      size == IF m.t = "symbol" /\ Has(m.enc, "size") THEN R.size.at[row[m.enc.size[1]]] ELSE NAI
      text == IF Has(m.enc, "text") THEN row[m.enc.text[1]] ELSE NAI
  IN IF s.tr = "swap" THEN [i |-> row.i, x |-> Flip(y[1], s.w), x1 |-> Flip(y[2], s.w), y |-> Flip(x[1], s.h), y1 |-> Flip(x[2], s.h), size |-> size, text |-> text]
     ELSE [i |-> row.i, x |-> x[1], x1 |-> x[2], y |-> y[1], y1 |-> y[2], size |-> size, text |-> text]
Drawn(s, i) ==
  LET m == s.ms[i] rs == PRows(s, i) R == TLCEval(Chans(s, i))
      parts == IF m.t \in {"line", "area"} THEN (IF Has(m.enc, "group") THEN Map(Uniq(Field(rs, m.enc.group[1])), LAMBDA g : Filter(rs, LAMBDA r : r[m.enc.group[1]] = g)) ELSE IF rs = <<>> THEN <<>> ELSE <<rs>>)
               ELSE Map(rs, LAMBDA r : <<r>>)
  IN Map(parts, LAMBDA p : [c |-> Main(m, R, p[1]), s |-> Second(m, R, p[1]), ps |-> Map(p, LAMBDA r : Point(s, m, rs, R, r))])
Picture(s) == [i \in 1..Len(s.ms) |-> TLCEval(Drawn(s, i))]

PlotStep(s, e) ==
  CASE e.op = "add" -> [s EXCEPT !.ms = Append(@, PMark(e.m))]
    [] e.op = "redo" -> [s EXCEPT !.ms[e.i] = [PMark(e.m) EXCEPT !.t = s.ms[e.i].t]]
    [] e.op = "data" -> [s EXCEPT !.ms = [j \in 1..Len(@) |-> IF DataOf(s, j) = DataOf(s, e.i) THEN [@[j] EXCEPT !.rows = e.rows] ELSE @[j]]]
    [] e.op = "enc" -> [s EXCEPT !.ms[e.i].enc = [c \in DOMAIN @ \cup {e.ch} |-> IF c = e.ch THEN e.fs ELSE @[c]]]
    [] e.op = "scale" -> [s EXCEPT !.ms[e.i].sc = [c \in DOMAIN @ \cup {e.ch} |-> IF c = e.ch THEN e.o ELSE @[c]]]
    [] e.op = "style" -> [s EXCEPT !.ms[e.i].sty = e.sty]
    [] e.op = "coord" -> [s EXCEPT !.tr = e.tr]
    [] e.op = "size" -> [s EXCEPT !.w = e.w, !.h = e.h]
    [] OTHER -> s
Close(a, b) == IF a = NAI \/ b = NAI THEN a = b ELSE Abs(a - b) <= 4
(* which of two opposite corners of a box comes first does not matter *)
SamePair(a, b, c, d, box) == (Close(a, c) /\ Close(b, d)) \/ (box /\ Close(a, d) /\ Close(b, c))
SamePoint(o, x, box) == o.i = x.i /\ SamePair(o.x, o.x1, x.x, x.x1, box) /\ SamePair(o.y, o.y1, x.y, x.y1, box) /\ Close(o.size, x.size) /\ o.text = x.text
SamePart(o, x, box) == o.c = x.c /\ o.s = x.s /\ Len(o.ps) = Len(x.ps) /\ \A j \in 1..Len(x.ps) : SamePoint(o.ps[j], x.ps[j], box)
SameMark(o, x, t) == Len(o) = Len(x) /\ \A j \in 1..Len(x) : SamePart(o[j], x[j], t \in {"interval", "rect", "rectX", "rectY"})
PlotAccept(s, e) == e.op # "threw" /\ (Has(e, "obs") => Len(e.obs) = Len(s.ms) /\ \A i \in 1..Len(s.ms) : SameMark(e.obs[i], TLCEval(Drawn(s, i)), s.ms[i].t))
PlotExplain(s, e) == IF Has(e, "obs") THEN [j \in {x \in 1..Len(s.ms) : x > Len(e.obs) \/ ~SameMark(e.obs[x], Drawn(s, x), s.ms[x].t)} |-> Drawn(s, j)] ELSE [ms |-> s.ms]

(* ------------------------------------------------------------- properties *)
(* without scale options the marks stay inside the box, and bars of one category do not overlap *)
Plain(s) == \A i \in 1..Len(s.ms) : s.ms[i].sc = [x \in {} |-> 0]
Inside(v, len) == v = NAI \/ (v >= -4 /\ v <= len * 1000 + 4)
PlotInv(s) ==
  LET pic == TLCEval(Picture(s)) IN
  /\ Plain(s) => \A i \in 1..Len(s.ms) : s.ms[i].t \notin {"interval", "area", "rect"} => \A j \in 1..Len(pic[i]) : \A q \in Range(pic[i][j].ps) : Inside(q.x, s.w) /\ Inside(q.y, s.h)
  /\ \A i \in 1..Len(s.ms) : s.ms[i].t = "interval" /\ s.ms[i].sty.ig[2] >= 0 /\ Has(s.ms[i].enc, "group") =>
       LET rs == PRows(s, i) g == s.ms[i].enc.group[1] c == TLCEval(Chan(s, i, "x")) IN
       \A a \in Range(rs), b \in Range(rs) : a[g] # b[g] => LET p == Bar(s.ms[i], rs, c, a, FALSE) q == Bar(s.ms[i], rs, c, b, FALSE) IN c.room = 0 \/ p[2] < p[1] \/ p[2] <= q[1] + 4 \/ q[2] <= p[1] + 4
===============================================================================
