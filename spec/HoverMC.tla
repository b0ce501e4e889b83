------------------------------ MODULE HoverMC ------------------------------
(* Bounded model of the pointer over a container: crosshairs and tooltips agree about the place under the pointer, say  *)
(* nothing of where it was before, and are gone once it has left.                                                        *)
EXTENDS Hover, Json, CSV, IOUtils
CONSTANTS MaxLen, Deep, Emit
Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
VARIABLES st, hist, k, last
Piece(t, v) == [t |-> t, v |-> v]
Nil == Piece("none", "")
R1 == [vis |-> "", key |-> Piece("field", "k"), value |-> Piece("field", "v"), symbol |-> Piece("field", "s")]
R2 == [vis |-> "odd", key |-> Piece("text", "T"), value |-> Piece("fn", "obj"), symbol |-> Nil]
NoR == [vis |-> "", key |-> Nil, value |-> Nil, symbol |-> Nil]
Rows1 == <<[k |-> "a", c |-> "a", v |-> 7, s |-> "rect"], [k |-> "b", c |-> "b", v |-> None, s |-> ""], [k |-> "c", c |-> "a", v |-> 30, s |-> ""]>>
Rows2 == <<[k |-> "b", c |-> "c", v |-> 11, s |-> "circle"], [k |-> "d", c |-> "b", v |-> 0, s |-> "rect"]>>
Scale1 == {[kind |-> kd, n |-> n, s |-> 20, pi |-> IF kd = "band" THEN pi ELSE IF kd = "point" THEN 4 ELSE 0, po |-> IF kd = "linear" THEN 0 ELSE po, base |-> b, rev |-> rv, unit |-> "px", dk |-> 1] :
            kd \in {"band", "point", "linear"}, n \in {2, 3}, pi \in {0, 2}, po \in {0, 2}, b \in {0, 10}, rv \in BOOLEAN}
Cfg(sc, th) == [vw |-> 420, vh |-> 400, ox |-> 10, oy |-> 0, cx |-> 30, cy |-> 20, w |-> 100, h |-> 100, ctr |-> <<50, 50>>, th |-> th, sc |-> sc, rows |-> Rows1]
Cfgs == {Cfg(sc, th) : sc \in (IF Emit THEN Scale1 ELSE IF Deep THEN {c \in Scale1 : c.n = 3} ELSE {c \in Scale1 : c.n = 3 /\ c.base = 10 /\ c.po = 2}), th \in (IF Emit THEN {"t0", "t1"} ELSE {"t0"})}
Names == <<"n0", "n1", "n2", "n3", "n4">>
CrossOf(s, nm, ty, shape, tr, of) == [name |-> nm, kind |-> "crosshair", type |-> ty, shape |-> shape, radius |-> None, rvia |-> "config", cvia |-> "default", rs |-> None, paint |-> "", trig |-> tr, off |-> of]
TipOf(s, nm, kd, ty, ms, av, ti, tr, of) ==
  [name |-> nm, kind |-> kd, type |-> ty, cvia |-> "default", marks |-> ms, title |-> IF ti /\ kd = "tooltip" THEN [t |-> "row", v |-> "", r |-> R1] ELSE [t |-> "text", v |-> "Z", r |-> NoR],
   content |-> [t |-> "rows", v |-> <<>>, r |-> <<R1, R2>>], addx |-> None, filter |-> IF s.cfg.sc.kind = "linear" THEN "v" ELSE "c", tol |-> 9, avoid |-> IF kd = "tooltip" THEN <<>> ELSE av, trig |-> tr, off |-> of]
Do(e, z) == st' = HoverStep(st, e) /\ k' = k + 1 /\ last' = z /\ hist' = (IF Emit THEN Append(hist, e) ELSE <<e>>)
NewName == Names[1 + Cardinality({i \in 1..Len(hist) : hist[i].op = "bind"})]
Used == Len(st.on)
Bind ==
  /\ Used < 2
  /\ LET nm == IF Emit THEN NewName ELSE Names[1 + (IF Used = 0 THEN 0 ELSE IF st.on[1].o.name = "n0" THEN 1 ELSE 0)] IN
     \E ty \in Pick({"x", "y"}), tr \in (IF Emit THEN Pick({"pointermove", "click"}) ELSE {"pointermove"}), of \in (IF Emit THEN Pick({"pointerleave", "none"}) ELSE {"pointerleave"}) :
       \/ \E sh \in Pick({"line", "rect"}) : Do([op |-> "bind", dt |-> 20, o |-> CrossOf(st, nm, ty, sh, tr, of)], "")
       \/ \E kd \in Pick({"tooltip", "dimension-tooltip"}), ms \in Pick(IF Emit \/ Deep THEN {<<"A">>, <<"A", "B">>} ELSE {<<"A">>}), av \in Pick(IF Emit \/ Deep THEN {<<>>, <<"B">>} ELSE {<<"B">>}), ti \in (IF Emit THEN Pick(BOOLEAN) ELSE {TRUE}) : Do([op |-> "bind", dt |-> 20, o |-> TipOf(st, nm, kd, ty, ms, av, ti, tr, of)], "")
CanBind == IF Emit THEN Cardinality({i \in 1..Len(hist) : hist[i].op = "bind"}) < 5 ELSE TRUE
Xs == IF Deep \/ Emit THEN {-3, 4, 17, 33, 48, 61, 77, 99, 104} ELSE {-3, 4, 33, 61, 104}
Ev(ty, dt, x, y, ov, kk) == [op |-> "ev", dt |-> dt, ty |-> ty, over |-> ov, k |-> kk, hit |-> IF ov = "" \/ ov = "g" THEN ov ELSE IF \E i \in 1..Len(st.rows) : st.rows[i].k = kk THEN ov ELSE "", x |-> x, y |-> y, deg |-> None, rad |-> None, px |-> 100 * x + 25, py |-> 100 * y + 25]
Move == \E n \in (IF Emit THEN 1..8 ELSE {1}) : \E x \in Pick(Xs), dt \in Pick({4, 20}), t \in Pick({<<"", "">>, <<"g", "">>, <<"A", "b">>, <<"A", "c">>, <<"B", "b">>}) : \E ty \in (IF Emit THEN Pick({"pointermove", "click"}) ELSE {"pointermove"}) : Do(Ev(ty, dt, x, IF x = 33 THEN 70 ELSE x, t[1], t[2]), ty)
Leave == \E dt \in {4, 20} : Do(Ev("pointerleave", dt, 5, 5, "", ""), "pointerleave")
Other ==
  \/ Do([op |-> "tick", dt |-> 20], IF last = "pointerleave" THEN last ELSE "")
  \/ \E i \in 1..Used : Do([op |-> "unbind", dt |-> 20, by |-> "inst", v |-> st.on[i].o.name], "") \/ Do([op |-> "rebind", dt |-> 20, v |-> st.on[i].o.name], "")
  \/ Do([op |-> "rows", dt |-> 20, rows |-> IF st.rows = Rows1 THEN Rows2 ELSE Rows1], "rows")
  \/ Do([op |-> "scale", dt |-> 20, sc |-> [st.sc EXCEPT !.rev = ~@]], "scale")
Init == \E c \in Cfgs : st = Hover0(c) /\ k = 0 /\ last = "" /\ hist = <<[op |-> "reset", cfg |-> c]>>
Finish == Emit /\ k = MaxLen - 1 /\ Do([op |-> "tick", dt |-> 20], "")
Step == k < MaxLen /\ (Emit => k < MaxLen - 1) /\ ((CanBind /\ Bind) \/ (Used > 0 /\ (Move \/ Leave \/ Other)))
Next == Finish \/ Step
Spec == Init /\ [][Next]_<<st, hist, k, last>>
(* time only matters relative to the last calls *)
View == <<[st EXCEPT !.now = 0, !.on = Map(@, LAMBDA i : [i EXCEPT !.lc = Min2(st.now - @, 10)])], k, last>>
(* ---- laws ---- *)
HoverOK == HoverInv(st)
(* the category marked under the pointer covers the pointer wherever the scale's steps do *)
Covers == \A i \in 1..Used : LET q == st.on[i] IN
  (q.o.kind = "crosshair" /\ q.want.vis /\ Shape(q.o) = "rect" /\ Discrete(st.sc) /\ last = "pointermove") =>
    LET z == q.want.v  p == hist[Len(hist)]  at == IF q.o.type = "x" THEN p.px + 100 * st.cfg.cx - z[1] ELSE p.py + 100 * st.cfg.cy - z[2]  w == IF q.o.type = "x" THEN z[3] ELSE z[4]
        here == Place(q.o.type, p)  lo == Centre(st.sc, IF st.sc.rev THEN st.sc.n ELSE 1) - 50 * st.sc.s  hi == Centre(st.sc, IF st.sc.rev THEN 1 ELSE st.sc.n) + 50 * st.sc.s IN
    (here >= lo /\ here <= hi) => (at >= 0 /\ at <= w)
(* what a dimension tooltip says belongs to the category a crosshair over the same scale marks *)
Agree == \A i \in 1..Used : LET q == st.on[i] IN
  (q.o.kind = "dimension-tooltip" /\ q.want.vis /\ ~q.fresh /\ Discrete(st.sc) /\ last = "pointermove") =>
    LET i0 == At(st.sc, Place(q.o.type, hist[Len(hist)])) IN \A n \in 1..Len(q.want.rows) : q.want.rows[n].key \in ({"T"} \cup {st.rows[m].k : m \in {m \in 1..Len(st.rows) : st.rows[m].c = Letters[i0]}})
Gone == last = "pointerleave" => \A i \in 1..Used : (st.on[i].o.off = "pointerleave" => ~st.on[i].want.vis)
(* after a pause everything shown is what the last event asked for, whatever came before *)
Forgets == \A i \in 1..Used : (last = "pointermove" /\ hist[Len(hist)].op = "ev" /\ st.on[i].o.trig = "pointermove") => st.on[i].want = Says(st, st.on[i].o, hist[Len(hist)])
EmitAll == (k' = MaxLen) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
=============================================================================
