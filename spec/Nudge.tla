-------------------------------- MODULE Nudge --------------------------------
(* Transforms of a mark that move or hide its elements after they are encoded: dodge, jitter, symmetry and overlap.    *)
(* Lengths are thousandths. One channel of the mark (cfg.ch) may be laid over a band scale, the other shows v (and u). *)
(* What is drawn is a function of the current rows, scale, signal and transforms, whatever was drawn before.           *)
EXTENDS Util
None == -9999
Near(a, b, d) == Abs(a - b) <= d
M == 1000
(* ---- the places the encoders give: a start, an optional other end or an optional length, per channel ---- *)
Bw(s) == M * s.sc.bw
Start(s, r) == IF s.cfg.band THEN M * s.sc.base + Bw(s) * ((IF s.sc.rev THEN s.sc.n - 1 - r.c ELSE r.c)) ELSE M * r.p
Wide(s) == s.cfg.mt = "rect"
Main(s, r) ==
  LET a == Start(s, r) w == IF s.cfg.band THEN Bw(s) ELSE 8 * M IN
  [a |-> a, b |-> IF (s.cfg.mt = "rule") THEN a ELSE IF Wide(s) /\ s.cfg.wm = "x1" THEN a + w ELSE None, l |-> IF Wide(s) /\ s.cfg.wm = "w" THEN w ELSE None]
Other(s, r) == [a |-> M * r.v, b |-> IF s.cfg.om = "u" /\ s.cfg.mt # "symbol" THEN M * r.u ELSE None, l |-> IF s.cfg.om = "h" /\ s.cfg.mt = "rect" THEN M * r.u ELSE None]
Base(s) == Map(s.rows, LAMBDA r : IF s.cfg.ch = "x" THEN [x |-> Main(s, r), y |-> Other(s, r)] ELSE [x |-> Other(s, r), y |-> Main(s, r)])
Num(s, o) == IF o = "sig" THEN s.sig ELSE o
Set(e, ch, q) == IF ch = "x" THEN [e EXCEPT !.x = q] ELSE [e EXCEPT !.y = q]
At(e, ch) == IF ch = "x" THEN e.x ELSE e.y
(* ---- dodge: the elements of one band stand side by side, one place for each group ---- *)
Amount(o, total) == IF o.pct THEN (total * o.v) \div 100 ELSE M * o.v
Gap(s, t) == IF t.gs THEN [pct |-> FALSE, v |-> s.sig] ELSE t.gap
DodgeCh(s, t) == IF t.ch # "" THEN t.ch ELSE s.cfg.ch
Groups(s, t) == IF t.by = "g" THEN Uniq(Map(s.rows, LAMBDA r : r.g)) ELSE IF s.cfg.gb THEN Uniq(Map(s.rows, LAMBDA r : r.g)) ELSE <<"all">>
Who(s, t, r) == IF t.by = "g" \/ s.cfg.gb THEN r.g ELSE "all"
Dodge(s, t, es) ==
  IF ~s.cfg.band \/ es = <<>> THEN es ELSE
  LET bw == Bw(s)  gs == Groups(s, t)  n == Len(gs)
      cat == Amount(t.cat, bw)
      inner0 == IF cat >= bw THEN bw ELSE bw - cat
      gap == Amount(Gap(s, t), inner0)
      size0 == (inner0 - (n - 1) * gap) \div n
      mode == IF t.max # None /\ size0 > M * t.max THEN "max" ELSE IF t.min # None /\ size0 < M * t.min /\ n * M * t.min <= bw THEN "min" ELSE ""
      size == IF mode = "max" THEN M * t.max ELSE IF mode = "min" THEN M * t.min ELSE size0
      inner == inner0 + (size - size0) * n
      off(r) == -(inner \div 2) + (Index(gs, Who(s, t, r)) - 1) * (size + gap)
      ch == DodgeCh(s, t)
      move(i) == LET q == At(es[i], ch)  r == s.rows[i]
                     lo == IF q.l = None /\ q.b # None THEN Min2(q.a, q.b) ELSE q.a
                     w == IF q.l # None THEN q.l ELSE IF q.b = None THEN bw ELSE Abs(q.b - q.a)
                     to == lo + w \div 2 + off(r)
                     mid == q.a + bw \div 2 + off(r) + size \div 2 IN
                 IF s.cfg.mt = "rect" THEN (IF q.l # None THEN [q EXCEPT !.a = to, !.l = size] ELSE [q EXCEPT !.a = to, !.b = to + size])
                 ELSE IF s.cfg.mt = "rule" THEN [q EXCEPT !.a = mid, !.b = mid] ELSE [q EXCEPT !.a = mid] IN
  [i \in 1..Len(es) |-> Set(es[i], ch, move(i))]
(* ---- jitter: spread around the place inside a share of the band, or over all places when there is no band ---- *)
Rnd(s, i) == s.cfg.rv[((i - 1) % Len(s.cfg.rv)) + 1]
SpanOf(s, es, ch) == LET S == {At(es[i], ch).a : i \in 1..Len(es)} IN IF SetMin(S) = SetMax(S) THEN <<0, M * (IF ch = "x" THEN s.cfg.vw ELSE s.cfg.vh)>> ELSE <<SetMin(S), SetMax(S)>>
JitCh(s, t, es, ch) ==
  IF es = <<>> THEN es ELSE
  LET given == IF ch = "x" THEN t.bw ELSE t.bh
      bs == IF given # None THEN M * given ELSE IF s.cfg.band /\ s.cfg.ch = ch THEN Bw(s) ELSE None
      own == IF t.rs THEN s.sig ELSE IF ch = "x" THEN t.wr ELSE t.hr
      ratio == Min2(IF own = None THEN 40 ELSE own, 50)
      sp == SpanOf(s, es, ch)
      to(i) == LET a == At(es[i], ch).a IN
               IF bs = None THEN sp[1] + ((sp[2] - sp[1]) * Rnd(s, i)) \div M
               ELSE a - (bs * ratio) \div 100 + (((bs * ratio) \div 50) * Rnd(s, i)) \div M IN
  [i \in 1..Len(es) |-> Set(es[i], ch, [At(es[i], ch) EXCEPT !.a = to(i)])]
Jit(s, t, es) == LET e1 == IF t.t = "jity" THEN es ELSE JitCh(s, t, es, "x") IN IF t.t = "jitx" THEN e1 ELSE JitCh(s, t, e1, "y")
(* ---- symmetry: all elements get the same middle ---- *)
Sym(s, t, es) ==
  IF es = <<>> THEN es ELSE
  LET ch == IF t.ch = "" THEN "y" ELSE t.ch
      range == \E i \in 1..Len(es) : At(es[i], ch).b # None
      mid(i) == LET q == At(es[i], ch) IN IF range THEN (q.a + q.b) \div 2 ELSE q.a
      S == {mid(i) : i \in 1..Len(es)}
      to == IF t.al = "min" THEN SetMin(S) ELSE SetMax(S)
      move(i) == LET q == At(es[i], ch) IN [q EXCEPT !.a = @ + to - mid(i), !.b = IF q.b = None THEN None ELSE q.b + to - mid(i)] IN
  [i \in 1..Len(es) |-> Set(es[i], ch, move(i))]
Move(s, t, es) == IF t.t = "dodge" THEN Dodge(s, t, es) ELSE IF t.t = "sym" THEN Sym(s, t, es) ELSE IF t.t = "over" THEN es ELSE Jit(s, t, es)
Placed(s) == Fold(LAMBDA es, t : Move(s, t, es), Base(s), s.tr)
(* ---- overlap: in order, an element which comes too close to the last one shown is hidden; lengths in quarters ---- *)
Quarter(v) == v \div 250
Shown0(s, i) == ~s.cfg.ve \/ s.rows[i].vis
RECURSIVE Sweep(_, _, _, _, _)
Sweep(s, t, es, is, last) ==
  IF is = <<>> THEN {} ELSE
  LET i == Head(is)  r == s.rows[i]  rad == 2 * r.s  x == Quarter(es[i].x.a)  y == Quarter(es[i].y.a)
      near == IF last = <<>> THEN FALSE ELSE
              LET dl == t.delta  g == (IF t.ds THEN 4 * s.sig ELSE IF dl # None THEN 4 * dl ELSE ((rad + last[3]) * t.mul) \div 2) + rad + last[3] IN
              IF t.dir = 1 THEN Abs(x - last[1]) < g ELSE IF t.dir = 2 THEN Abs(y - last[2]) < g ELSE (x - last[1]) * (x - last[1]) + (y - last[2]) * (y - last[2]) < g * g IN
  IF ~near THEN Sweep(s, t, es, Tail(is), <<x, y, rad>>)
  ELSE (IF r.fs THEN {} ELSE {i}) \cup Sweep(s, t, es, Tail(is), last)
Hidden(s, t, es) ==
  IF t.rad = "F" \/ (t.rad = "" /\ s.cfg.mt # "symbol") THEN {} ELSE
  LET ord(is) == IF t.sort THEN StableSort(is, LAMBDA i, j : es[i].x.a < es[j].x.a) ELSE is
      seen(P(_)) == ord(SelectSeq([i \in 1..Len(es) |-> i], LAMBDA i : Shown0(s, i) /\ P(i))) IN
  IF t.by = "" THEN Sweep(s, t, es, seen(LAMBDA i : TRUE), <<>>)
  ELSE UNION {Sweep(s, t, es, seen(LAMBDA i : s.rows[i].g = g), <<>>) : g \in {s.rows[i].g : i \in 1..Len(es)}}
(* ---- what is drawn ---- *)
Over(s) == {n \in 1..Len(s.tr) : s.tr[n].t = "over"}
Ends(q) == LET z == IF q.b # None THEN q.b ELSE IF q.l # None THEN q.a + q.l ELSE q.a IN <<Min2(q.a, z), Max2(q.a, z)>>
Drawn(s) ==
  LET es == Placed(s)
      hid == UNION {Hidden(s, s.tr[n], es) : n \in Over(s)}
      oc == IF s.cfg.ch = "x" THEN "y" ELSE "x"
      at(i) == IF s.rows[i].k \in s.on THEN Set(es[i], oc, [At(es[i], oc) EXCEPT !.a = M * s.cfg.sv]) ELSE es[i] IN
  [i \in 1..Len(es) |-> [k |-> s.rows[i].k, x |-> Ends(at(i).x), y |-> Ends(at(i).y), vis |-> Shown0(s, i) /\ i \notin hid]]
(* ---- the state: current rows, scale, signal, transforms and the elements which carry the state ---- *)
Nudge0(cfg) == [cfg |-> cfg, rows |-> cfg.rows, sc |-> cfg.sc, sig |-> cfg.sig, tr |-> cfg.tr, on |-> {}]
NudgeStep(s, e) ==
  IF e.op = "rows" THEN [s EXCEPT !.rows = e.rows, !.on = {k \in @ : \E i \in 1..Len(e.rows) : e.rows[i].k = k /\ (s.cfg.gb => \E j \in 1..Len(s.rows) : s.rows[j].k = k /\ s.rows[j].g = e.rows[i].g)}]
  ELSE IF e.op = "sc" THEN [s EXCEPT !.sc = e.sc]
  ELSE IF e.op = "sig" THEN [s EXCEPT !.sig = e.v]
  ELSE IF e.op = "tr" THEN [s EXCEPT !.tr = e.tr]
  ELSE IF e.op = "state" THEN [s EXCEPT !.on = IF e.v THEN @ \cup {e.k} ELSE @ \ {e.k}]
  ELSE s
Wrong(c, name) == IF c THEN {name} ELSE {}
PairNear(a, b) == Near(a[1], b[1], 5) /\ Near(a[2], b[2], 5)
Bad1(w, o) == Wrong(w.k # o.k, "order") \cup Wrong(~PairNear(w.x, o.x), "x") \cup Wrong(~PairNear(w.y, o.y), "y") \cup Wrong(w.vis # o.vis, IF o.vis THEN "shown" ELSE "hidden")
Bad(s, e) == LET w == Drawn(NudgeStep(s, e)) IN IF Len(w) # Len(e.obs) THEN {"count"} ELSE UNION {Bad1(w[i], e.obs[i]) : i \in 1..Len(w)}
NudgeAccept(s, e) == e.op # "threw" /\ Bad(s, e) = {}
NudgeExplain(s, e) == IF e.op = "threw" THEN [wrong |-> {"threw"}, want |-> <<>>] ELSE [wrong |-> Bad(s, e), want |-> Drawn(NudgeStep(s, e))]
NudgeInv(s) == Len(Drawn(s)) = Len(s.rows)
=============================================================================
