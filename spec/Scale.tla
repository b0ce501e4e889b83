-------------------------------- MODULE Scale --------------------------------
(* A scale of a view: domain and range from constants, a signal, the fields of *)
(* data sets or a coordinate, and its options.  After every run the scale maps *)
(* probes exactly as its specification on the current data and signals says.   *)
(* Positions are in thousandths; option values in hundredths; names are codes. *)
EXTENDS Util
NAI == -99999999
Scale0(cfg) == [type |-> cfg.type, dom |-> cfg.dom, rng |-> cfg.rng, opt |-> cfg.opt, rf |-> <<>>,
                a |-> cfg.a, b |-> cfg.b, sig |-> cfg.sig, w |-> cfg.w, h |-> cfg.h]
Continuous(t) == t \in {"linear", "pow", "sqrt", "log", "symlog", "time", "utc"}
Banded(t) == t \in {"band", "point"}

Rows(s, d) == IF d = "A" THEN s.a ELSE s.b
Field(rows, f) == Map(rows, LAMBDA r : r[f])
Fields(s, d) == LET RECURSIVE go(_) go(i) == IF i > Len(d.fs) THEN <<>> ELSE Field(Rows(s, d.d), d.fs[i]) \o go(i + 1) IN go(1)
AllValues(s, d) == LET RECURSIVE go(_) go(i) == IF i > Len(d.ds) THEN <<>> ELSE Fields(s, d.ds[i]) \o go(i + 1) IN go(1)
Sorted(vs, how) == CASE how = "asc" -> StableSort(vs, LAMBDA x, y : x < y) [] how = "desc" -> StableSort(vs, LAMBDA x, y : x > y) [] OTHER -> vs
Extent(vs) == LET ns == {vs[i] : i \in 1..Len(vs)} \ {NAI} IN IF ns = {} THEN <<NAI, NAI>> ELSE <<SetMin(ns), SetMax(ns)>>
OptOf(s, o) == IF o \in DOMAIN s.opt THEN (IF Has(s.opt[o], "s") THEN s.sig ELSE s.opt[o].c) ELSE NAI
Given(s, o) == OptOf(s, o) # NAI

RawDomain(s) ==
  CASE s.dom.k = "arr" -> s.dom.v
    [] s.dom.k = "sig" -> s.dom.v \o <<s.sig>>
    [] OTHER -> LET vs == Sorted(AllValues(s, s.dom), s.dom.sort) IN
                IF Continuous(s.type) \/ s.type = "quantize" THEN Extent(vs) ELSE vs
(* zero, min and max only ever widen a domain of two ends *)
Widen(s, d) ==
  LET lo == Min2(d[1], d[2]) hi == Max2(d[1], d[2]) zero == OptOf(s, "zero") > 0 IN
  IF Len(d) # 2 \/ ~(zero \/ Given(s, "min") \/ Given(s, "max")) THEN d
  ELSE << IF zero /\ lo > 0 THEN 0 ELSE IF Given(s, "min") THEN Min2(lo, OptOf(s, "min")) ELSE lo,
          IF zero /\ hi < 0 THEN 0 ELSE IF Given(s, "max") THEN Max2(hi, OptOf(s, "max")) ELSE hi >>
Domain(s) ==
  LET d == RawDomain(s) IN
  CASE Continuous(s.type) \/ s.type = "quantize" -> Widen(s, d)
    [] Banded(s.type) \/ s.type = "ordinal" -> Uniq(d)
    [] s.type = "quantile" -> Sorted(SelectSeq(d, LAMBDA x : x # NAI), "asc")
    [] OTHER -> d
RangeOf(s) ==
  CASE s.rng.k = "arr" -> s.rng.v
    [] s.rng.k = "sig" -> s.rng.v \o <<s.sig>>
    [] s.rng.k = "coord" -> LET r == IF s.rng.dim = "x" THEN <<0, s.w>> ELSE <<s.h, 0>> IN IF s.rng.rev THEN Rev(r) ELSE r
    [] OTHER -> LET vs == AllValues(s, s.rng) IN IF Continuous(s.type) THEN Extent(vs) ELSE vs
(* the visible window <<i/4, j/4>> of the whole range *)
Whole(s) ==
  LET r == RangeOf(s) IN
  IF s.rf = <<>> \/ Len(r) # 2 \/ ~(Continuous(s.type) \/ Banded(s.type)) THEN r
  ELSE LET k == ((r[2] - r[1]) * 4) \div (s.rf[2] - s.rf[1]) b == r[1] - (k * s.rf[1]) \div 4 IN <<b, k + b>>

(* n/d in thousandths *)
Milli(n0, d0) == LET n == IF d0 < 0 THEN -n0 ELSE n0 d == Abs(d0) IN (n \div d) * 1000 + RoundDiv((n % d) * 1000, d)
Lin(x, x0, x1, y0, y1) == IF x0 = x1 THEN Milli(y0 + y1, 2) ELSE y0 * 1000 + Milli((x - x0) * (y1 - y0), x1 - x0)
Clamp(x, d) == Max2(Min2(x, SetMax(Range(d))), SetMin(Range(d)))
ContMap(s, d, r, x0) ==
  LET x == IF OptOf(s, "clamp") > 0 THEN Clamp(x0, d) ELSE x0
      up == d[1] <= d[Len(d)]
      \* the piece of a piecewise domain that contains x
      n == Min2(Len(d), Len(r))
      j == IF n = 2 THEN 1 ELSE LET c == {i \in 1..(n - 1) : IF up THEN d[i] <= x ELSE d[i] >= x} IN IF c = {} THEN 1 ELSE SetMax(c)
      y == CASE s.type = "pow" -> Lin(x * x, d[1] * d[1], d[2] * d[2], r[1], r[2])
             [] s.type = "sqrt" /\ x # d[1] /\ x # d[2] -> NAI                    \* only the ends are exact
             [] s.type \in {"log", "symlog"} /\ x # d[1] /\ x # d[2] -> NAI
             [] OTHER -> Lin(x, d[j], d[j + 1], r[j], r[j + 1])
  IN y
(* bands: the first band starts at `start`, each `step` after the last *)
Pad(s, o) == IF s.type = "point" THEN (IF o = "paddingInner" THEN 100 ELSE IF Given(s, "padding") THEN Min2(100, OptOf(s, "padding")) ELSE 0)
             ELSE IF Given(s, o) THEN Min2(100, OptOf(s, o)) ELSE IF Given(s, "padding") THEN OptOf(s, "padding") ELSE 0
BandGeo(s) ==
  LET d == Domain(s) n == Len(d) w == Whole(s) rev == w[2] < w[1]
      lo == IF rev THEN w[2] ELSE w[1] hi == IF rev THEN w[1] ELSE w[2] Len0 == hi - lo
      pi == Pad(s, "paddingInner") po == Pad(s, "paddingOuter")
      al == IF Given(s, "align") THEN Min2(100, OptOf(s, "align")) ELSE 50
      sp0 == IF n = 1 THEN 100 + 2 * po ELSE 100 * n - pi + 2 * po
      sp == Max2(100, IF sp0 > 0 THEN sp0 ELSE 100)
      rnd == OptOf(s, "round") > 0
      exactly == (Len0 * 100) % sp = 0 /\ (pi % 25 # 0 \/ po % 25 # 0)     \* an exact quotient of inexact floats
      istep == (Len0 * 100) \div sp
      step == IF rnd THEN istep * 1000 ELSE Milli(Len0 * 100, sp)
      start0 == lo * 1000 + RoundDiv((Len0 * 100 - istep * (100 * n - pi)) * al, 10)
      exact == lo * 1000 + Milli(Len0 * (sp - 100 * n + pi) * al, sp * 100)
      start == IF rnd THEN RoundDiv(start0, 1000) * 1000 ELSE exact
      bw0 == IF rnd THEN istep * (100 - pi) * 10 ELSE Milli(Len0 * (100 - pi), sp)
      bw == IF rnd THEN RoundDiv(bw0, 1000) * 1000 ELSE bw0
      at(i) == IF rnd THEN start + i * istep * 1000 ELSE start + Milli(Len0 * i * 100, sp)
  IN [pos |-> [i \in 1..n |-> IF rev THEN at(n - i) ELSE at(i - 1)], step |-> step, bw |-> bw, edge |-> rnd /\ exactly, rnd |-> rnd, half |-> rnd /\ (start0 % 1000 \in 498..502 \/ bw0 % 1000 \in 498..502)]
Unknown(s) == IF Given(s, "unknown") THEN OptOf(s, "unknown") * 1000 ELSE NAI
(* in which of the n + 1 intervals between thresholds x lies *)
QuantizeIdx(d, n, x) == Cardinality({i \in 0..(n - 1) : (i + 1) * d[2] + (n - i) * d[1] <= x * (n + 1)})
QuantileIdx(d, n, x) == Cardinality({i \in 1..(n - 1) :
  LET h == (Len(d) - 1) * i f == h \div n IN
  n * d[f + 1] + (IF f + 2 <= Len(d) THEN (d[f + 2] - d[f + 1]) * (h % n) ELSE 0) <= n * x})
At(s, x) ==
  LET d == Domain(s) r == RangeOf(s) IN
  CASE Continuous(s.type) -> ContMap(s, d, Whole(s), x)
    [] Banded(s.type) -> IF Index(d, x) = 0 THEN Unknown(s) ELSE BandGeo(s).pos[Index(d, x)]
    [] s.type = "ordinal" -> IF Index(d, x) = 0 THEN Unknown(s) ELSE r[((Index(d, x) - 1) % Len(r)) + 1] * 1000
    [] s.type = "quantize" -> r[QuantizeIdx(d, Len(r) - 1, x) + 1] * 1000
    [] s.type = "quantile" -> r[QuantileIdx(d, Len(r), x) + 1] * 1000
    [] s.type = "threshold" -> r[Cardinality({i \in 1..Min2(Len(d), Len(r) - 1) : d[i] <= x}) + 1] * 1000
    [] OTHER -> x * 1000
Expect(s, xs) ==
  [dom |-> Domain(s), rng |-> RangeOf(s), ys |-> Map(xs, LAMBDA x : At(s, x)),
   step |-> IF Banded(s.type) THEN BandGeo(s).step ELSE 0, bw |-> IF Banded(s.type) THEN BandGeo(s).bw ELSE 0]
(* nothing is said about a scale without values *)
Decided(s) == (s.rf = <<>> \/ Len(RangeOf(s)) # 2 \/ (RangeOf(s)[2] - RangeOf(s)[1]) % 4 = 0) /\ IF Continuous(s.type) \/ s.type = "quantize" THEN NAI \notin Range(Domain(s)) /\ NAI \notin Range(RangeOf(s)) /\ Len(RangeOf(s)) >= 2
              ELSE Len(Domain(s)) > 0 /\ Len(RangeOf(s)) > 0 /\ ~(Banded(s.type) /\ BandGeo(s).edge)
Near(x, y, tol) == IF x = NAI \/ y = NAI THEN x = y ELSE Abs(x - y) <= tol
(* rounded results may go either way at one half *)
Tol(s) == IF Continuous(s.type) THEN (IF OptOf(s, "roundRange") > 0 THEN 502 ELSE 2)
          ELSE IF Banded(s.type) THEN (IF BandGeo(s).half THEN 1000 ELSE 2) ELSE 0
Agrees(s, e, o, x) ==
  /\ o.dom = x.dom
  /\ s.type \in {"identity"} \/ o.rng = x.rng
  /\ \A i \in 1..Len(x.ys) : (x.ys[i] = NAI /\ s.type \in {"log", "sqrt", "symlog"}) \/ Near(o.ys[i], x.ys[i], Tol(s))
  /\ Continuous(s.type) /\ OptOf(s, "roundRange") > 0 => \A i \in 1..Len(o.ys) : o.ys[i] % 1000 = 0
  /\ Near(o.step, x.step, 2) /\ Near(o.bw, x.bw, Tol(s))

ScaleStep(s, e) == CASE e.op = "a" -> [s EXCEPT !.a = e.rows] [] e.op = "b" -> [s EXCEPT !.b = e.rows]
                     [] e.op = "sig" -> [s EXCEPT !.sig = e.v] [] e.op = "size" -> [s EXCEPT !.w = e.w, !.h = e.h]
                     [] e.op = "dom" -> [s EXCEPT !.dom = e.dom] [] e.op = "rng" -> [s EXCEPT !.rng = e.rng]
                     [] e.op = "conf" -> [s EXCEPT !.opt = [o \in DOMAIN s.opt \cup DOMAIN e.opt |-> IF o \in DOMAIN e.opt THEN e.opt[o] ELSE s.opt[o]]]
                     [] e.op = "rf" -> [s EXCEPT !.rf = e.rf]
                     (* a replaced specification leaves nothing behind *)
                     [] e.op = "spec" -> Scale0(e.cfg)
                     [] OTHER -> s
ScaleAccept(s, e) == ~Has(e, "obs") \/ (~Has(e.obs, "threw") /\ (~Decided(s) \/ Agrees(s, e, e.obs, Expect(s, e.xs))))
ScaleExplain(s, e) == IF Decided(s) /\ Has(e, "xs") THEN Expect(s, e.xs) ELSE [dom |-> <<>>]

(* ------------------------------------------------------------- properties *)
(* domain ends map to range ends; maps are monotone; bands tile the range without overlap *)
ScaleInv(s) ==
  Decided(s) =>
  /\ Continuous(s.type) => LET d == Domain(s) r == Whole(s) IN
        Len(d) = Len(r) /\ d[1] # d[Len(d)] => At(s, d[1]) = r[1] * 1000 /\ At(s, d[Len(d)]) = r[Len(r)] * 1000
  /\ Banded(s.type) => LET g == BandGeo(s) w == Whole(s) n == Len(g.pos) lo == Min2(w[1], w[2]) * 1000 hi == Max2(w[1], w[2]) * 1000 IN
        /\ \A i \in 1..(n - 1) : Abs(Abs(g.pos[i + 1] - g.pos[i]) - g.step) <= 2
        /\ g.bw <= g.step /\ n > 0
        /\ s.type = "band" /\ ~g.rnd => \A i \in 1..n : g.pos[i] >= lo - 2 /\ g.pos[i] + g.bw <= hi + 2 + 2 * n
  /\ s.type = "quantize" => LET d == Domain(s) IN d[1] <= d[2] =>
        \A x \in d[1]..Min2(d[2], d[1] + 20) : QuantizeIdx(d, Len(RangeOf(s)) - 1, x) \in 0..(Len(RangeOf(s)) - 1)
===============================================================================
