------------------------------ MODULE GadgetMC ------------------------------
(* Bounded model of the components: what the laws ask for is accepted, a part left over from an earlier state is not.   *)
EXTENDS Gadget, Json, CSV, IOUtils
CONSTANTS MaxRuns, MaxOps, Deep, Emit
VARIABLES st, hist, n, k
R0(a, v, w) == [k |-> a, v |-> v, w |-> w]
D1 == <<R0("a", 1, 7), R0("b", 4, 2)>>
D2 == <<R0("c", 9, 1), R0("a", 3, 3), R0("b", 0, 5)>>
D3 == <<R0("b", 6, 6), R0("d", 2, 8)>>
Cfg(sk, th, sb) ==
  [d |-> [D |-> D1, E |-> D2], x |-> [dx |-> 10, rx |-> 100, my |-> 3], grp |-> <<120, 90>>, con |-> <<60, 50>>, th |-> th, skip |-> sk,
   ti |-> [text |-> "one", sub |-> "two", own |-> ""], lb |-> [tg |-> <<"R">>, style |-> "", text |-> "k", size |-> <<>>],
   sl |-> [lo |-> None, hi |-> None, own |-> "", value |-> <<>>], sb |-> sb, pl |-> [src |-> "D", type |-> "auto", own |-> "", index |-> None], dz |-> [src |-> "D", y |-> "v"]]
Bars == {[dir |-> a, pos |-> p, con |-> c, size |-> None, own |-> ""] : a \in {"", "horizontal", "vertical"}, p \in {"", "top", "left"}, c \in BOOLEAN}
Cfgs == {Cfg(sk, "t1", sb) : sk \in (IF Emit THEN BOOLEAN ELSE {FALSE}), sb \in (IF Emit \/ Deep THEN Bars ELSE {b \in Bars : b.dir = ""})}
Do(e) == st' = GadgetStep(st, e) /\ st' # st /\ (hist' = IF Emit THEN Append(hist, e) ELSE <<e>>) /\ k' = k + 1 /\ UNCHANGED n
O(o, kk, v) == Do([op |-> o, k |-> kk, v |-> v])
Change ==
  /\ k < MaxOps /\ n < MaxRuns /\ (Emit => n > 0)
  /\ \/ \E q \in {D1, D2, D3} : O("data", "D", q) \/ O("data", "E", q)
     \/ \E q \in {[dx |-> 20, rx |-> 200, my |-> 1], [dx |-> 10, rx |-> 200, my |-> 3]} : Do([op |-> "scale", v |-> q])
     \/ \E z \in {<<200, 100>>, <<120, 90>>} : Do([op |-> "grp", v |-> z]) \/ Do([op |-> "con", v |-> z])
     \/ \E t \in {"one", "uno"} : O("title", "text", t) \/ O("title", "sub", t)
     \/ O("title", "own", "mine") \/ O("slider", "own", "mine") \/ O("scrollbar", "own", "mine") \/ O("player", "own", "mine")
     \/ \E t \in {<<"R">>, <<"S", "N">>, <<"N", "R", "S">>} : O("label", "tg", t)
     \/ \E t \in {"x", ""} : O("label", "style", t)
     \/ O("label", "text", "v") \/ O("label", "size", <<33, 44>>)
     \/ O("slider", "lo", 2) \/ O("slider", "hi", 9) \/ O("slider", "value", <<3, 5>>)
     \/ \E t \in {"horizontal", "vertical", ""} : O("scrollbar", "dir", t)
     \/ \E t \in {"top", "bottom", "left", "right", ""} : O("scrollbar", "pos", t)
     \/ \E b \in BOOLEAN : O("scrollbar", "con", b)
     \/ \E t \in {"D", "E"} : O("player", "src", t)
     \/ \E t \in {"continuous", "discrete", "auto"} : O("player", "type", t)
     \/ O("player", "index", 1)
     \/ \E t \in {"D", "E"}, y \in {"v", "w"} : Do([op |-> "zoom", v |-> [src |-> t, y |-> y]])
     \/ Do([op |-> "theme", v |-> "t2"])
Ref(s) ==
  LET b == Bar(s)  lo == IF s.sl.lo = None THEN 0 ELSE s.sl.lo  hi == IF s.sl.hi = None THEN 1 ELSE s.sl.hi  rows == s.d[s.dz.src]  pk == IF s.pl.type = "continuous" THEN "continuousPlayer" ELSE "discretePlayer" IN
  [op |-> "run", title |-> [text |-> s.ti.text, sub |-> s.ti.sub, tag |-> Tag(s, s.ti.own, "title")],
   slider |-> [lo |-> lo, hi |-> hi, value |-> IF s.sl.value # <<>> THEN s.sl.value ELSE <<lo, hi>>, tag |-> Tag(s, s.sl.own, "slider")],
   scrollbar |-> [dir |-> Dir(s.sb), box |-> <<b.x, b.y, b.w, b.h>>, tag |-> Tag(s, s.sb.own, "scrollbar")],
   player |-> [ks |-> Map(s.d[s.pl.src], LAMBDA r : r.k), kind |-> pk, index |-> IF s.pl.index = None THEN 0 ELSE s.pl.index, tag |-> Tag(s, s.pl.own, pk)],
   zoom |-> [ks |-> Map(rows, LAMBDA r : r.k), tag |-> Tag(s, "", "datazoom"), xs |-> Map(rows, LAMBDA r : PX(s, r)), ys |-> Map(rows, LAMBDA r : PY(s, r)), inv |-> [i \in 1..5 |-> 250 * (i - 1) * s.x.dx]],
   label |-> [labels |-> Labels(s), size |-> LabelSize(s), tag |-> Tag(s, "", "dataLabel")]]
Sound == Bad(st, Ref(st)) = {}
Tight == [][~Emit => LET a == Ref(st)  b == Ref(st') IN (a # b => Bad(st', a) # {})
                     /\ \A f \in {"title", "slider", "scrollbar", "player", "zoom", "label"} : a[f] # b[f] => Bad(st', [b EXCEPT ![f] = a[f]]) # {}]_<<st, hist, n, k>>
(* the direction of a bar decides over its position, and a bar never depends on the group it is not fitted to *)
BarLaws == /\ HPos(Pos(st.sb)) = (Dir(st.sb) = "horizontal")
           /\ (st.sb.con => Bar([st EXCEPT !.grp = <<1, 1>>]) = Bar(st)) /\ (~st.sb.con => Bar([st EXCEPT !.con = <<1, 1>>]) = Bar(st))
GadgetIn == GadgetInv(st)
Init == \E c \in Cfgs : st = Gadget0(c) /\ hist = <<[op |-> "reset", cfg |-> c]>> /\ n = 0 /\ k = 0
Run == n < MaxRuns /\ (n > 0 => k > 0) /\ n' = n + 1 /\ k' = 0 /\ UNCHANGED st /\ (hist' = IF Emit THEN Append(hist, [op |-> "run"]) ELSE <<[op |-> "run"]>>)
Next == Run \/ Change
Spec == Init /\ [][Next]_<<st, hist, n, k>>
View == <<st, n, k>>
EmitAll == (n' = MaxRuns /\ n' > n) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
=============================================================================
