------------------------------- MODULE Progress -------------------------------
(* Progressive marks: a mark whose data exceeds its threshold is drawn step by  *)
(* step, one step per frame, in every group of its data; a mark behind a        *)
(* progressive transform shows what the transform has produced so far.          *)
(*   data : id -> rows [k, g, v]     sig : current value of the signal          *)
(*   ms   : sequence of marks [id, ty, d, step, thr, grp, st, own, live, dirty,   *)
(*          snap, cur]; snap is what the mark was last evaluated on, cur the    *)
(*          number of steps drawn since                                        *)
(*   ty   : rect, symbol, line (progressive by step and threshold), pt, pa      *)
(*          (behind a progressive transform; pa draws only its final result)    *)
EXTENDS Util, TLC
NoSnap == [rows |-> <<>>, y |-> 0, step |-> 0, thr |-> 0, init |-> FALSE]
Progress0(cfg) == [data |-> cfg.data, sig |-> cfg.sig, oth |-> 0,
                   ms |-> Map(cfg.ms, LAMBDA m : m @@ [live |-> TRUE, dirty |-> TRUE, snap |-> NoSnap, cur |-> 0])]
Groups(m) == IF m.grp THEN Uniq(Map(m.snap.rows, LAMBDA r : r.g)) ELSE IF m.snap.rows = <<>> THEN <<>> ELSE <<"">>
Of(m, g) == IF m.grp THEN Filter(m.snap.rows, LAMBDA r : r.g = g) ELSE m.snap.rows
Behind(m) == m.ty \in {"pt", "pa"}
Progressive(m) == IF Behind(m) THEN TRUE
  ELSE m.snap.step > 0 /\ m.snap.thr > 0 /\ m.snap.step < m.snap.thr /\ \E g \in Range(Groups(m)) : Len(Of(m, g)) > m.snap.thr
Total(m) == IF ~Progressive(m) THEN 1
  ELSE IF Behind(m) THEN Max2(1, CeilDiv(Len(m.snap.rows), m.snap.step))
  ELSE SetMax({CeilDiv(Len(Of(m, g)), m.snap.step) : g \in Range(Groups(m))})
Prefix(q, n) == SubSeq(q, 1, Min2(n, Len(q)))
Shown(m, q) == IF Progressive(m) THEN Prefix(q, m.cur * m.snap.step) ELSE q
Item(m, r) == [k |-> IF m.ty = "line" THEN 0 - 1 ELSE r.k, x |-> r.v, y |-> IF m.own THEN m.snap.y ELSE 7, s |-> m.st >= 0 /\ r.v >= m.st]
(* what is drawn, by group *)
Drawn(m) == IF ~m.live \/ ~m.snap.init THEN <<>>
  ELSE IF Behind(m) \/ (~Progressive(m) /\ m.ty # "line") THEN <<Map(Shown(m, m.snap.rows), LAMBDA r : Item(m, r))>>
  ELSE Map(Groups(m), LAMBDA g : Map(Shown(m, Of(m, g)), LAMBDA r : Item(m, r)))
Ordered(m) == Progressive(m) /\ ~Behind(m)
Count(m) == SumSeq(Map(Drawn(m), LAMBDA q : Len(q)))
Unfinished(m) == m.live /\ m.snap.init /\ m.cur < Total(m)
(* what a pa mark shows is settled once nothing is unfinished *)
Judged(s, m) == m.ty = "pa" => \A x \in Range(s.ms) : ~Unfinished(x)

Start(s, m) == [m EXCEPT !.dirty = FALSE, !.cur = 1, !.snap = [rows |-> s.data[m.d], y |-> s.sig, step |-> m.step, thr |-> m.thr, init |-> TRUE]]
(* a run restarts the marks something changed for; other marks which are not finished may be restarted by it or continue *)
RunMark(s, m, e) ==
  IF ~m.live THEN m
  ELSE IF m.dirty THEN Start(s, m)
  ELSE IF m.ty = "pa" /\ Unfinished(m) THEN Start(s, m) \* nothing can be seen of it until it is finished: cur is a lower bound
  ELSE IF Progressive(m) /\ Count(m) # e.n[m.id] THEN Start(s, m) ELSE m
SetM(s, id, F(_)) == [s EXCEPT !.ms = Map(@, LAMBDA m : IF m.id = id THEN F(m) ELSE m)]
ProgressStep(s, e) ==
  CASE e.op = "data" -> [s EXCEPT !.data[e.d] = e.rows, !.ms = Map(@, LAMBDA m : IF m.d = e.d THEN [m EXCEPT !.dirty = TRUE] ELSE m)]
    [] e.op = "sig" -> IF s.sig = e.v THEN s ELSE [s EXCEPT !.sig = e.v, !.ms = Map(@, LAMBDA m : IF m.own THEN [m EXCEPT !.dirty = TRUE] ELSE m)]
    [] e.op = "oth" -> [s EXCEPT !.oth = e.v]
    [] e.op = "conf" -> SetM(s, e.m, LAMBDA m : [m EXCEPT !.step = e.step, !.thr = e.thr, !.dirty = TRUE])
    [] e.op = "del" -> SetM(s, e.m, LAMBDA m : [m EXCEPT !.live = FALSE])
    [] e.op = "run" -> [s EXCEPT !.ms = Map(@, LAMBDA m : RunMark(s, m, e))]
    [] e.op = "frame" -> [s EXCEPT !.ms = Map(@, LAMBDA m : IF Unfinished(m) THEN [m EXCEPT !.cur = @ + 1] ELSE m)]
    [] OTHER -> s
Bag(q) == [x \in Range(q) |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
Flat(qs) == Concat(qs)
MarkOk(s, m, o) ==
  /\ o.live = m.live
  /\ (m.live /\ m.snap.init /\ Judged(s, m)) =>
       /\ Bag(Flat(o.gs)) = Bag(Flat(Drawn(m)))
       /\ (m.ty = "line" => Bag(Filter(o.gs, LAMBDA q : q # <<>>)) = Bag(Filter(Drawn(m), LAMBDA q : q # <<>>)))
       /\ (Ordered(m) => Filter(o.gs, LAMBDA q : q # <<>>) = Filter(Drawn(m), LAMBDA q : q # <<>>))
       /\ (m.ty # "line" => Bag(o.els) = Bag(Flat(Drawn(m))))
       /\ (~Ordered(m) /\ m.ty # "line" => o.els = Flat(Drawn(m)))
       /\ (m.ty = "line" => o.nel = Len(Drawn(m)))
ProgressAccept(s, e) == /\ e.op # "threw"
  /\ e.op \in {"run", "frame"} => LET s1 == ProgressStep(s, e) IN
       /\ \A i \in 1..Len(s1.ms) : MarkOk(s1, s1.ms[i], e.obs[i])
       /\ e.op = "run" => e.o = s1.oth
ProgressExplain(s, e) == [ms |-> Map(ProgressStep(s, e).ms, LAMBDA m : [id |-> m.id, live |-> m.live, cur |-> m.cur, drawn |-> Drawn(m)])]
ProgressInv(s) == \A m \in Range(s.ms) : m.snap.init => m.cur >= 1 /\ (Total(m) >= 1 => m.cur <= Total(m))
==============================================================================
