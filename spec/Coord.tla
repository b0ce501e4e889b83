------------------------------- MODULE Coord --------------------------------
(* Coordinate systems.  A coordinate maps points of its own plane to the     *)
(* canvas by an affine matrix that is folded from the list of its transforms *)
(* around its origin; a polar one goes through (radius, angle).  Lengths are *)
(* in 1/1000, angles in quarter turns.                                       *)
EXTENDS Util
K == 1000
NoneP == <<>>
Cos(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sin(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
Mil(p) == <<p[1] * K, p[2] * K>>

(* ---- affine matrices <<a, b, c, d, e, f>> : x' = a x + c y + e, y' = b x + d y + f *)
Id6 == <<1, 0, 0, 1, 0, 0>>
App(m, p) == <<m[1] * p[1] + m[3] * p[2] + m[5], m[2] * p[1] + m[4] * p[2] + m[6]>>
MTrans(m, p) == [m EXCEPT ![5] = @ + m[1] * p[1] + m[3] * p[2], ![6] = @ + m[2] * p[1] + m[4] * p[2]]
MScale(m, s) == <<m[1] * s[1], m[2] * s[1], m[3] * s[2], m[4] * s[2], m[5], m[6]>>
MSwap(m) == <<m[2], m[1], m[4], m[3], m[6], m[5]>>
(* everything so far turns about the point o *)
MRot(m, k, o) ==
  LET R(p) == <<Cos(k) * p[1] - Sin(k) * p[2], Sin(k) * p[1] + Cos(k) * p[2]>>
      u == R(<<m[1], m[2]>>)
      v == R(<<m[3], m[4]>>)
      w == R(<<m[5] - o[1], m[6] - o[2]>>)
  IN <<u[1], u[2], v[1], v[2], w[1] + o[1], w[2] + o[2]>>

(* ---- the state of a coordinate *)
Fresh(t) == [type |-> t, s |-> <<0, 0>>, e |-> <<0, 0>>, o |-> <<0, 0>>, uo |-> FALSE, ur |-> FALSE, ang |-> <<0, 4>>, rad |-> <<0, 0>>, ts |-> <<>>]
(* a point given with the angle of an irrational rotation is only judged by its round trip *)
Irr(c) == \E i \in 1..Len(c.ts) : c.ts[i].t = "rotate" /\ Has(c.ts[i], "m")
Transposed(c) == Len(Filter(c.ts, LAMBDA t : t.t = "transpose")) % 2 = 1
OneT(c, m, t) ==
  CASE t.t = "translate" -> MTrans(m, Mil(t.p))
    [] t.t = "scale"     -> MScale(m, t.p)
    [] t.t = "rotate"    -> MRot(m, t.k, c.o)
    [] t.t = "transpose" -> IF c.type = "polar" THEN m ELSE MSwap(m)
Matrix(c) == Fold(LAMBDA m, t : OneT(c, m, t), MTrans(Id6, c.o), c.ts)

(* polar: setting the range moves the default origin to its middle and the default radius fits *)
Fit(c) == IF c.type # "polar" THEN c ELSE
  LET c1 == IF c.uo THEN c ELSE [c EXCEPT !.o = <<(c.e[1] - c.s[1]) \div 2, (c.e[2] - c.s[2]) \div 2>>]
      far == {Abs(c1.s[1] - c1.o[1]), Abs(c1.e[1] - c1.o[1]), Abs(c1.s[2] - c1.o[2]), Abs(c1.e[2] - c1.o[2])}
  IN IF c1.ur THEN c1 ELSE [c1 EXCEPT !.rad[2] = SetMin(far)]
(* ... and setting origin, angles or radii makes the range the box of the sector *)
Box(c) ==
  LET lo == Min2(c.ang[1], c.ang[2])
      hi == Max2(c.ang[1], c.ang[2])
      pts == {<<c.o[1] + Cos(k) * r, c.o[2] + Sin(k) * r>> : k \in lo..hi, r \in {c.rad[1], c.rad[2]}}
      xs == {p[1] : p \in pts}
      ys == {p[2] : p \in pts}
  IN [c EXCEPT !.s = <<SetMin(xs), SetMin(ys)>>, !.e = <<SetMax(xs), SetMax(ys)>>]
CSet(c, e) ==
  CASE e.op = "start"  -> Fit([c EXCEPT !.s = Mil(e.p)])
    [] e.op = "end"    -> Fit([c EXCEPT !.e = Mil(e.p)])
    [] e.op = "origin" -> Box([c EXCEPT !.o = Mil(e.p), !.uo = TRUE])
    [] e.op = "angle"  -> Box([c EXCEPT !.ang = e.p])
    [] e.op = "radius" -> Box([c EXCEPT !.rad = <<Min2(e.p[1], e.p[2]) * K, Max2(e.p[1], e.p[2]) * K>>, !.ur = TRUE])
    [] e.op = "apply"  -> [c EXCEPT !.ts = e.ts]
    [] OTHER -> c

(* ---- what a coordinate answers *)
(* u: the value of the first dimension (x / theta), v: of the second (y / r); for a polar one the one that acts as angle is in quarter turns *)
Conv(c, u, v) ==
  IF c.type # "polar" THEN App(Matrix(c), <<u * K, v * K>>)
  ELSE LET th == IF Transposed(c) THEN v ELSE u
           r == IF Transposed(c) THEN u ELSE v
       IN App(Matrix(c), <<Cos(th) * r * K, Sin(th) * r * K>>)
Main(c, dim) == (dim \in {"x", "theta", "0"}) # Transposed(c)
Flip(rev, p) == IF rev THEN <<p[2], p[1]>> ELSE p
RangeOf(c, e) == Flip(e.rev, IF c.type = "polar" THEN (IF Main(c, e.dim) THEN c.ang ELSE c.rad)
                             ELSE IF Main(c, e.dim) THEN <<c.s[1], c.e[1]>> ELSE <<c.e[2], c.s[2]>>)
VisualOf(c, e) == IF c.type = "polar" THEN (IF Main(c, e.dim) THEN (IF e.sub THEN "inside" ELSE "outside") ELSE IF e.sub THEN "end" ELSE "start")
                  ELSE IF Main(c, e.dim) THEN (IF e.sub THEN "top" ELSE "bottom") ELSE IF e.sub THEN "right" ELSE "left"
Ray(c, k) == <<<<c.o[1] + Cos(k) * c.rad[1], c.o[2] + Sin(k) * c.rad[1]>>, <<c.o[1] + Cos(k) * c.rad[2], c.o[2] + Sin(k) * c.rad[2]>>>>
(* e.base: <<>> or <<b>> ; <<>> as answer: there are none *)
AxisOf(c, e) ==
  LET m == Main(c, e.dim)
      at == e.base # <<>>
  IN Flip(e.rev /\ ~(c.type = "polar" /\ m),
     IF c.type = "polar" THEN (IF m THEN <<<<>>, <<>>>> ELSE Ray(c, IF at THEN e.base[1] ELSE IF e.sub THEN c.ang[2] ELSE c.ang[1]))
     ELSE IF m THEN LET y == IF at THEN e.base[1] * K ELSE IF e.sub THEN c.s[2] ELSE c.e[2] IN <<<<c.s[1], y>>, <<c.e[1], y>>>>
     ELSE LET x == IF at THEN e.base[1] * K ELSE IF e.sub THEN c.e[1] ELSE c.s[1] IN <<<<x, c.e[2]>>, <<x, c.s[2]>>>>)

(* ---- a view: the coordinate is configured from its specification, marks are placed by it *)
Val(st, x) == IF x.s THEN <<st.sig, x.v[2]>> ELSE x.v
Transforms(st) ==
  LET f == st.conf IN
  (IF Has(f, "translate") THEN <<[t |-> "translate", p |-> Val(st, f.translate)]>> ELSE <<>>)
  \o (IF Has(f, "rotate") THEN <<[t |-> "rotate", k |-> IF f.rotate.s THEN st.sig ELSE f.rotate.v]>> ELSE <<>>)
  \o (IF Has(f, "scale") THEN <<[t |-> "scale", p |-> Val(st, f.scale)]>> ELSE <<>>)
  \o (IF Has(f, "transpose") /\ (IF f.transpose.s THEN st.sig % 2 = 1 ELSE f.transpose.v) THEN <<[t |-> "transpose"]>> ELSE <<>>)
Configured(st) ==
  LET f == st.conf
      a == IF Has(f, "origin") THEN CSet(st.c, [op |-> "origin", p |-> Val(st, f.origin)]) ELSE st.c
      b == IF Has(f, "start") THEN CSet(a, [op |-> "start", p |-> Val(st, f.start)]) ELSE a
      d == IF Has(f, "end") THEN CSet(b, [op |-> "end", p |-> Val(st, f.end)]) ELSE b
  IN [d EXCEPT !.ts = Transforms(st)]
Merge(a, b) == b @@ a
Place(st, r) == LET c == st.c IN <<Conv(c, r.x, r.y), Conv(c, r.x1, r.y)>>
(* rows are keyed; with positions of enter a row keeps the position it came with until it leaves *)
Kept(st, rows) == IF st.enc # "enter" THEN rows
  ELSE [i \in 1..Len(rows) |-> LET old == Filter(st.seen, LAMBDA r : r.k = rows[i].k) IN IF old = <<>> THEN rows[i] ELSE old[1]]

Coord0(cfg) ==
  IF cfg.kind = "api" THEN [kind |-> "api", c |-> Fresh(cfg.type)]
  ELSE [kind |-> "view", c |-> Fresh(cfg.type), conf |-> cfg.conf, rows |-> cfg.rows, seen |-> <<>>, sig |-> cfg.sig, enc |-> cfg.enc, ran |-> FALSE]
CoordStep(st, e) ==
  IF st.kind = "api" THEN [st EXCEPT !.c = CSet(st.c, e)]
  ELSE CASE e.op = "conf" -> [st EXCEPT !.conf = Merge(@, e.conf)]
         [] e.op = "drop" -> [st EXCEPT !.conf = [f \in DOMAIN @ \ {e.f} |-> @[f]]]
         [] e.op = "sig"  -> [st EXCEPT !.sig = e.v]
         [] e.op = "rows" -> [st EXCEPT !.rows = e.rows]
         [] e.op = "spec" -> [st EXCEPT !.c = Fresh(e.type), !.conf = e.conf, !.enc = e.enc, !.seen = <<>>]
         [] e.op = "run"  -> LET s1 == [st EXCEPT !.c = Configured(st), !.ran = TRUE] IN [s1 EXCEPT !.seen = Kept(s1, s1.rows)]
         [] OTHER -> st

Near(a, b) == Abs(a - b) <= 2
NearP(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Near(p[i], q[i])
(* radians in 1/1000 of k quarter turns *)
Rad(k) == (k * 1570796 + (IF k >= 0 THEN 500 ELSE -500)) \div 1000
NearA(a, k) == LET t == Rad(k % 4) IN Near(a, t) \/ Near(a, t + 6283) \/ Near(a, t - 6283)
CoordOk(st, e) ==
  LET c == st.c IN
  IF Has(e, "obs") /\ Has(e.obs, "threw") THEN FALSE
  ELSE CASE e.op = "conv" -> Irr(c) \/ (/\ NearP(e.obs.p, Conv(c, e.u[1], e.v[1]))
                              /\ ((Len(e.u) = 1 /\ Len(e.v) = 1) \/ NearP(e.obs.p1, Conv(c, e.u[Len(e.u)], e.v[Len(e.v)]))))
         (* converting and inverting gives the point again: u and v as measured before and after *)
         [] e.op = "round" -> /\ \A i \in 1..Len(e.obs.a) : LET d == Abs(e.obs.a[i] - e.obs.b[i]) IN d <= 2 \/ (e.obs.ang[i] /\ Abs(d - 6283) <= 2)
                              /\ Len(e.obs.a) = Len(e.obs.b)
         [] e.op = "back" -> Irr(c) \/ (LET th == IF Transposed(c) THEN e.v ELSE e.u
                                            r == IF Transposed(c) THEN e.u ELSE e.v
                                        IN IF c.type # "polar" THEN NearP(e.obs.p, <<e.u * K, e.v * K>>)
                                           ELSE IF r = 0 THEN e.obs.p = <<0, 0>>
                                           ELSE IF Transposed(c) THEN Near(e.obs.p[1], r * K) /\ NearA(e.obs.p[2], th)
                                           ELSE NearA(e.obs.p[1], th) /\ Near(e.obs.p[2], r * K))
         [] e.op = "range" -> LET x == RangeOf(c, e) IN
              IF c.type = "polar" /\ Main(c, e.dim) THEN Near(e.obs.p[1], Rad(x[1])) /\ Near(e.obs.p[2], Rad(x[2])) ELSE NearP(e.obs.p, x)
         [] e.op = "vis" -> e.obs.v = VisualOf(c, e)
         [] e.op = "axis" -> LET x == AxisOf(c, e) IN NearP(e.obs.p[1], x[1]) /\ NearP(e.obs.p[2], x[2])
         [] e.op = "tr" -> e.obs.v = Transposed(c)
         [] e.op = "run" -> /\ Len(e.obs.ps) = Len(st.seen)
                            /\ \A i \in 1..Len(st.seen) : LET x == Place(st, st.seen[i])
                                                              o == e.obs.ps[i]
                                                          IN NearP(o.s, x[1]) /\ NearP(o.r, x[1]) /\ NearP(o.r1, x[2])
                                                             /\ o.a = <<st.seen[i].x * K, st.seen[i].y * K>>
         [] OTHER -> TRUE
CoordAccept(st, e) == CoordOk(CoordStep(st, e), e)
CoordExplain(st, e) ==
  LET s == CoordStep(st, e)
      c == s.c
  IN CASE e.op = "conv" -> [x |-> <<Conv(c, e.u[1], e.v[1]), Conv(c, e.u[Len(e.u)], e.v[Len(e.v)])>>, c |-> c]
       [] e.op = "range" -> [x |-> RangeOf(c, e), c |-> c]
       [] e.op = "axis" -> [x |-> AxisOf(c, e), c |-> c]
       [] e.op = "vis" -> [x |-> VisualOf(c, e), c |-> c]
       [] e.op = "run" -> [x |-> [i \in 1..Len(s.seen) |-> Place(s, s.seen[i])], c |-> c]
       [] OTHER -> [x |-> <<>>, c |-> c]
(* invariants of the state: the map is one to one, the default origin is inside, the radii are ordered *)
CoordInv(st) ==
  LET c == st.c
      m == Matrix(c)
  IN /\ ~Irr(c) => m[1] * m[4] - m[2] * m[3] # 0
     /\ c.rad[1] <= c.rad[2] \/ (c.type = "polar" /\ ~c.ur)
     /\ c.type = "polar" /\ ~c.uo /\ ~c.ur => c.rad[1] = 0
     /\ ~Irr(c) /\ c.type = "polar" => Conv(c, 1, 0) = Conv(c, 3, 0) \/ Transposed(c)
==============================================================================
