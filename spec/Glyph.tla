-------------------------------- MODULE Glyph --------------------------------
(* Composite marks.  State: the rows, what each channel is encoded with, the direction, the state encoders, and the states  *)
(* of every element.  The parts of a glyph follow from the channels of its element: the encoding of its row, overridden by  *)
(* its active states in order.  Lengths are counted in 32nds of a unit of the screen; channel values in quarters.          *)
EXTENDS Util
Nil == 999999
U == 8                                         \* one quarter, in 32nds
Empty == [c \in {} |-> 0]
Merge(a, b) == [c \in DOMAIN a \cup DOMAIN b |-> IF c \in DOMAIN b THEN b[c] ELSE a[c]]
Glyph0(cfg) == [t |-> cfg.t, dir |-> cfg.dir, enc |-> cfg.enc, sts |-> cfg.sts, rows |-> cfg.rows, rng |-> cfg.rng,
                els |-> Map(cfg.rows, LAMBDA r : [k |-> r.k, st |-> <<>>, rt |-> Empty])]
In(q, x) == \E i \in 1..Len(q) : q[i] = x
El(s, k) == s.els[CHOOSE i \in 1..Len(s.els) : s.els[i].k = k]
Row(s, k) == s.rows[CHOOSE i \in 1..Len(s.rows) : s.rows[i].k = k]
On(s, k, F(_)) == [s EXCEPT !.els = Map(@, LAMBDA e : IF e.k = k THEN F(e) ELSE e)]
RECURSIVE AddAll(_, _)
AddAll(q, names) == IF names = <<>> THEN q ELSE AddAll(IF In(q, names[1]) THEN q ELSE Append(q, names[1]), Tail(names))
GlyphStep(s, e) ==
  CASE e.op = "rows" -> [s EXCEPT !.rows = e.v, !.els = Map(e.v, LAMBDA r : IF \E i \in 1..Len(s.els) : s.els[i].k = r.k THEN El(s, r.k) ELSE [k |-> r.k, st |-> <<>>, rt |-> Empty])]
    [] e.op = "dir" -> [s EXCEPT !.dir = e.v]
    [] e.op = "rng" -> [s EXCEPT !.rng = e.v]
    [] e.op = "enc" -> [s EXCEPT !.enc = Merge(@, e.v)]
    [] e.op = "sts" -> [s EXCEPT !.sts[e.n] = e.v]
    [] e.op = "use" -> On(s, e.k, LAMBDA x : [x EXCEPT !.st = e.v])
    [] e.op = "add" -> On(s, e.k, LAMBDA x : [x EXCEPT !.st = AddAll(@, e.v)])
    [] e.op = "own" -> On(s, e.k, LAMBDA x : [x EXCEPT !.st = AddAll(@, <<e.n>>), !.rt = [z \in DOMAIN @ \cup {e.n} |-> IF z = e.n THEN e.v ELSE @[z]]])
    [] e.op = "rem" -> On(s, e.k, LAMBDA x : [x EXCEPT !.st = SelectSeq(@, LAMBDA n : n # e.n), !.rt = IF In(x.st, e.n) THEN [z \in DOMAIN @ \ {e.n} |-> @[z]] ELSE @])
    [] e.op = "clear" -> On(s, e.k, LAMBDA x : [x EXCEPT !.st = <<>>, !.rt = Empty])
    [] OTHER -> s
(* ---- channels ---- *)
Val(x, r) == IF x.f # "" THEN r[x.f] ELSE x.v
EncAll(m, r) == [c \in DOMAIN m |-> Val(m[c], r)]
StateOf(s, el, n) == Merge(IF n \in DOMAIN s.sts THEN s.sts[n] ELSE Empty, IF n \in DOMAIN el.rt THEN el.rt[n] ELSE Empty)
RECURSIVE Over(_, _, _, _, _)
Over(s, el, r, i, acc) == IF i > Len(el.st) THEN acc ELSE Over(s, el, r, i + 1, Merge(acc, EncAll(StateOf(s, el, el.st[i]), r)))
Attrs(s, el) == LET r == Row(s, el.k) IN Over(s, el, r, 1, EncAll(s.enc, r))
Get(A, c, d) == IF c \in DOMAIN A THEN A[c] ELSE d
(* ---- parts ---- *)
Horiz(s) == s.dir = "horizontal"
Part(n, g, vis, A) == [n |-> n, g |-> IF vis = 1 THEN g ELSE <<>>, vis |-> vis, fill |-> Get(A, "fill", Nil), stroke |-> Get(A, "stroke", Nil), lw |-> Get(A, "lineWidth", Nil),
                       fo |-> IF "fillOpacity" \in DOMAIN A THEN 2500 * A.fillOpacity ELSE Nil, ang |-> Nil, anc |-> <<>>, z |-> Nil]
(* parts are laid out along the value axis: (across, value) turned into (x, y) *)
P2(s, a, v) == IF Horiz(s) THEN <<v, a>> ELSE <<a, v>>
Across(s, A) == U * (IF Horiz(s) THEN A.y ELSE A.x)
Thick(s, A, w, h) == IF Horiz(s) THEN U * Get(A, h, A.height) ELSE U * Get(A, w, A.width)
Turned(s, A, ps) == IF "angle" \notin DOMAIN A THEN ps
  ELSE Map(ps, LAMBDA p : [p EXCEPT !.ang = U * A.angle, !.anc = P2(s, Across(s, A), (U * (A.min + A.max)) \div 2)])
Bar(s, A, t, v1, v2) == P2(s, Across(s, A) - (t \div 2), U * v1) \o P2(s, Across(s, A) + (t \div 2), U * v2)
Shaft(s, A) == P2(s, Across(s, A), U * A.min) \o P2(s, Across(s, A), U * A.max)
Median(A) == IF "median" \in DOMAIN A THEN 1 ELSE 0
BoxPlot(s, A) ==
  LET b == Thick(s, A, "boxWidth", "boxHeight")  r == Thick(s, A, "ruleWidth", "ruleHeight") IN
  Turned(s, A, <<Part("shaft", Shaft(s, A), 1, A), Part("box", Bar(s, A, b, A.q1, A.q3), 1, A), Part("max", Bar(s, A, r, A.max, A.max), 1, A),
                 Part("min", Bar(s, A, r, A.min, A.min), 1, A), Part("median", Bar(s, A, b, Get(A, "median", 0), Get(A, "median", 0)), Median(A), A)>>)
BarBoxPlot(s, A) ==
  LET o == Thick(s, A, "minMaxWidth", "minMaxHeight")  q == Thick(s, A, "q1q3Width", "q1q3Height")
      Box(p) == [p EXCEPT !.lw = 0, !.stroke = IF "stroke" \in DOMAIN A THEN 0 ELSE Nil] IN
  Turned(s, A, <<[Box(Part("minMaxBox", Bar(s, A, o, A.min, A.max), 1, A)) EXCEPT !.fo = IF "minMaxFillOpacity" \in DOMAIN A THEN 2500 * A.minMaxFillOpacity ELSE @],
                 Box(Part("q1q3Box", Bar(s, A, q, A.q1, A.q3), 1, A)), Part("median", Bar(s, A, q, Get(A, "median", 0), Get(A, "median", 0)), Median(A), A)>>)
(* the density of a violin is a triangle: 1, 2 and 4 parts of four at three values of the row *)
Violin(s, A, r) ==
  LET d == U * Get(A, "densitySize", 120)  at == <<r.a, r.b, r.c>>
      Side(i, sg) == P2(s, (sg * d * (2 ^ (i - 1))) \div 4, s.rng * U * at[i])
      F(c, d0) == IF c \in DOMAIN A THEN A[c] ELSE d0  f == Get(A, "fill", Nil)  k == Get(A, "stroke", Nil) IN
  <<Part("violin", Side(1, -1) \o Side(2, -1) \o Side(3, -1) \o Side(3, 1) \o Side(2, 1) \o Side(1, 1), 1,
            Merge(A, [fill |-> F("violinFill", Get(A, "fill", 101)), stroke |-> F("violinStroke", Get(A, "stroke", 102))]))>>
  \o Turned(s, A, <<Part("shaft", Shaft(s, A), 1, Merge(A, [stroke |-> Get(A, "stroke", 103)])),
                 Part("box", Bar(s, A, Thick(s, A, "boxWidth", "boxHeight"), A.q1, A.q3), 1, Merge(A, [fill |-> Get(A, "fill", 103)])),
                 Part("median", P2(s, Across(s, A), U * Get(A, "median", 0)), Median(A), Merge(A, [fill |-> F("medianFill", Get(A, "fill", 104))]))>>)
Ripple(s, A) ==
  LET r == Max2(0, Min2(A.ripple, 4))
      R(i) == [Part(IF i = 0 THEN "ripple0" ELSE IF i = 1 THEN "ripple1" ELSE "ripple2", <<U * A.size + (U * A.size * (4 * i + r)) \div 8>>, 1, A) EXCEPT !.fo = 7500 - 2500 * i - 625 * r] IN
  <<Part("symbol", <<U * A.size>>, 1, A), R(0), R(1), R(2)>>
Wave(s, A) ==
  LET W(n, sp, off, fo) == [Part(n, Concat([i \in 1..21 |-> <<32 * (50 * i - 550 + off) + U * A.wave * sp, U * A.y + (IF i % 2 = 1 THEN 640 ELSE 0), U * (A.y + A.height)>>]), 1, A) EXCEPT !.fo = IF @ = Nil THEN fo ELSE @] IN
  <<W("wave0", 100, 0, 10000), W("wave1", 200, 0 - 40, 6600), W("wave2", 300, 0 - 20, 3300)>>
(* ---- paths: letters as 900001.. ---- *)
M == <<900001>>  LL == <<900002>>  CC == <<900003>>  Z == <<900004>>
Round(A, v) == IF Get(A, "round", 1) = 1 THEN 32 * ((v + 16) \div 32) ELSE v
VertLink(s, A) == IF "direction" \in DOMAIN A THEN A.direction \in {1, 2} ELSE s.dir \in {"vertical", "TB", "BT"}
(* a path is written along (main, cross); a vertical one has them exchanged *)
Pt(v, m, c) == IF v THEN <<c, m>> ELSE <<m, c>>
Ends(s, A) == LET v == VertLink(s, A) IN [m0 |-> U * (IF v THEN A.y0 ELSE A.x0), m1 |-> U * (IF v THEN A.y1 ELSE A.x1), c0 |-> U * (IF v THEN A.x0 ELSE A.y0), c1 |-> U * (IF v THEN A.x1 ELSE A.y1)]
Bend(A, a, b) == Round(A, a + (Get(A, "curvature", 2) * (b - a)) \div 4)
(* the way from (m0, c0) to (m1, c1) after its first point; back = written from the far end *)
Way(A, v, m0, b0, b1, m1, c0, c1, back) ==
  CASE Get(A, "pathType", 0) = 1 -> LL \o (IF back THEN Pt(v, m0, c0) ELSE Pt(v, m1, c1))
    [] Get(A, "pathType", 0) = 2 -> IF back THEN LL \o Pt(v, b0, c1) \o LL \o Pt(v, b0, c0) \o LL \o Pt(v, m0, c0) ELSE LL \o Pt(v, b0, c0) \o LL \o Pt(v, b0, c1) \o LL \o Pt(v, m1, c1)
    [] OTHER -> IF back THEN CC \o Pt(v, b1, c1) \o Pt(v, b0, c0) \o Pt(v, m0, c0) ELSE CC \o Pt(v, b0, c0) \o Pt(v, b1, c1) \o Pt(v, m1, c1)
Link(s, A, ratio) ==
  LET v == VertLink(s, A)  e == Ends(s, A)  th == 2 * A.thickness * ratio  full == U * A.thickness
      m0 == Round(A, e.m0)  m1 == Round(A, e.m1)  b0 == Bend(A, e.m0, e.m1)  b1 == Bend(A, e.m1, e.m0)
      top(c) == Round(A, CASE Get(A, "align", 0) = 1 -> c - (th \div 2) [] Get(A, "align", 0) = 2 -> c + (full \div 2) - th [] OTHER -> c - (full \div 2))
      c00 == top(e.c0)  c10 == top(e.c1)  c01 == Round(A, c00 + th)  c11 == Round(A, c10 + th)  h == th \div 2
      end == IF Get(A, "endArrow", 0) = 1 /\ m0 # m1 THEN LL \o Pt(v, m1, Round(A, c10 - h)) \o LL \o Pt(v, Round(A, m1 + th), Round(A, (c10 + c11) \div 2)) \o LL \o Pt(v, m1, Round(A, c11 + h)) ELSE <<>>
      start == IF Get(A, "startArrow", 0) = 1 /\ m0 # m1 THEN LL \o Pt(v, m0, Round(A, c01 + h)) \o LL \o Pt(v, Round(A, m0 - th), Round(A, (c00 + c01) \div 2)) \o LL \o Pt(v, m0, Round(A, c00 - h)) ELSE <<>>
  IN M \o Pt(v, m0, c00) \o Way(A, v, m0, b0, b1, m1, c00, c10, FALSE) \o end \o LL \o Pt(v, m1, c11) \o Way(A, v, m0, b0, b1, m1, c01, c11, TRUE) \o start \o Z
HasRatio(A) == "ratio" \in DOMAIN A /\ A.ratio >= 0 /\ A.ratio <= 4
LinkPath(s, A) == <<[Part("back", IF HasRatio(A) THEN Link(s, A, 4) ELSE <<>>, 1, IF "backgroundStyle" \in DOMAIN A THEN Merge(A, [fill |-> A.backgroundStyle]) ELSE A) EXCEPT !.z = 0],
                    [Part("front", Link(s, A, IF HasRatio(A) THEN A.ratio ELSE 4), 1, A) EXCEPT !.z = 1]>>
TreePath(s, A) ==
  LET v == VertLink(s, A)  e == Ends(s, A)  m0 == Round(A, e.m0)  m1 == Round(A, e.m1)  c0 == Round(A, e.c0)  c1 == Round(A, e.c1)  a == U * Get(A, "arrowSize", 12)
      sg == IF m1 > m0 THEN 1 ELSE -1
      Tip(m, c, d) == M \o Pt(v, Round(A, m + d * a), Round(A, c - a)) \o LL \o Pt(v, m, c) \o LL \o Pt(v, Round(A, m + d * a), Round(A, c + a))
      Tip2(m, c, d) == M \o Pt(v, Round(A, m + d * a), Round(A, c + a)) \o LL \o Pt(v, m, c) \o LL \o Pt(v, Round(A, m + d * a), Round(A, c - a))
      \* the start arrow of a vertical link is drawn from its other side
      st == IF Get(A, "startArrow", 0) = 1 /\ m0 # m1 THEN (IF v THEN Tip2(m0, c0, sg) ELSE Tip(m0, c0, sg)) ELSE <<>>
      en == IF Get(A, "endArrow", 0) = 1 /\ m0 # m1 THEN Tip(m1, c1, -sg) ELSE <<>>
      Style(p, c) == IF c \in DOMAIN A THEN [p EXCEPT !.stroke = A[c]] ELSE p IN
  <<Part("main", M \o Pt(v, m0, c0) \o Way(A, v, m0, Bend(A, e.m0, e.m1), Bend(A, e.m1, e.m0), m1, c0, c1, FALSE), 1, A),
    [Style(Part("startArrow", st, 1, A), "startArrowStyle") EXCEPT !.z = 1], [Style(Part("endArrow", en, 1, A), "endArrowStyle") EXCEPT !.z = 2]>>
(* a glyph of the user: defaults give way to the encoding and to both encoders, the encoder of a channel to none *)
Custom(s, A) == <<Part("a", <<U * (A.p + A.w), U * A.q, U * A.p, IF "o" \in DOMAIN A THEN U * A.o ELSE 160>>, 1, Merge(A, [fill |-> Get(A, "fill", 103)])),
                  Part("b", <<U * A.w, U * (2 * A.p + (IF Horiz(s) THEN 400 ELSE 0))>>, IF "o" \in DOMAIN A THEN 1 ELSE 0, A)>>
Parts(s, el) ==
  LET A == Attrs(s, el)  r == Row(s, el.k) IN
  CASE s.t = "boxplot" -> BoxPlot(s, A) [] s.t = "barBoxplot" -> BarBoxPlot(s, A) [] s.t = "violin" -> Violin(s, A, r) [] s.t = "ripplePoint" -> Ripple(s, A)
    [] s.t = "wave" -> Wave(s, A) [] s.t = "linkPath" -> LinkPath(s, A) [] s.t = "treePath" -> TreePath(s, A) [] OTHER -> Custom(s, A)
Shown(s) == LET q == StableSort(s.els, LAMBDA a, b : a.k < b.k) IN Map(q, LAMBDA el : [k |-> el.k, st |-> el.st, parts |-> Parts(s, el)])
(* ---- growing: a box plot from its middle, a link from its source ---- *)
Centre(e, A) == IF e.c # Nil THEN U * e.c ELSE IF "median" \in DOMAIN A THEN U * A.median ELSE (U * (A.q1 + A.q3)) \div 2
Grow(s, e) ==
  LET A == Attrs(s, El(s, e.k))  f == <<"min", "max", "q1", "q3", "median">>
      to == Map(f, LAMBDA c : IF c \in DOMAIN A THEN U * A[c] ELSE Nil) IN
  IF s.t \in {"boxplot", "barBoxplot"} THEN [from |-> <<U * A.x, U * A.y>> \o Map(to, LAMBDA v : IF v = Nil THEN Nil ELSE Centre(e, A)), to |-> <<U * A.x, U * A.y>> \o to]
  ELSE [from |-> <<U * A.x0, U * A.y0, U * A.x0, U * A.y0>>, to |-> <<U * A.x0, U * A.y0, U * A.x1, U * A.y1>>]
GlyphAccept(s, e) == /\ e.op # "threw"
                     /\ ("els" \in DOMAIN e => e.els = TLCEval(Shown(GlyphStep(s, e))))
                     /\ (e.op = "grow" => [from |-> e.from, to |-> e.to] = Grow(s, e))
Diff(a, b) == {<<i, j>> \in (1..Len(a)) \X (1..8) : i <= Len(b) /\ j <= Len(a[i].parts) /\ j <= Len(b[i].parts) /\ a[i].parts[j] # b[i].parts[j]}
GlyphExplain(s, e) == IF "els" \in DOMAIN e THEN LET w == TLCEval(Shown(GlyphStep(s, e))) d == Diff(w, e.els) IN
                        [wrong |-> {<<w[x[1]].k, w[x[1]].parts[x[2]].n>> : x \in d}, want |-> IF d # {} THEN LET x == CHOOSE x \in d : TRUE IN w[x[1]].parts[x[2]] ELSE w, got |-> IF d # {} THEN LET x == CHOOSE x \in d : TRUE IN e.els[x[1]].parts[x[2]] ELSE e.els]
                      ELSE [wrong |-> {e.op}, want |-> IF e.op = "grow" THEN Grow(s, e) ELSE e, got |-> e]
GlyphInv(s) == Len(s.els) = Len(s.rows) /\ \A i \in 1..Len(s.els) : s.els[i].k = s.rows[i].k
==============================================================================
