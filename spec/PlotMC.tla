------------------------------- MODULE PlotMC -------------------------------
(* Bounded model of a plot: the picture is a function of the plot as it is (the order of unrelated definitions does not *)
(* matter), shared scales serve every mark, and every change is judged.                                                 *)
EXTENDS Plot, Json, CSV, IOUtils
CONSTANTS MaxOps, Deep, Emit
VARIABLES st, hist, k
R0(i, c, g, v, w, u) == [i |-> i, k |-> c, g |-> g, v |-> v, w |-> w, u |-> u]
D1 == <<R0(1, 1, 11, 3, 5, 2), R0(2, 2, 11, 6, 1, 7), R0(3, 1, 12, 2, 9, 4), R0(4, 2, 12, 8, 4, 5)>>
D2 == <<R0(1, 2, 12, 5, 7, 1), R0(2, 3, 11, 10, 2, 9), R0(3, 2, 11, 4, 4, 3)>>
D3 == <<R0(1, 3, 13, 7, 7, 7)>>
Ds == {D1, D2} \cup (IF Emit THEN {D3} ELSE {})
None == [x \in {} |-> 0]
Enc(t, g) ==
  LET xy == CASE t \in {"rectX", "ruleX"} -> [x |-> <<"k">>] [] t \in {"rectY", "ruleY"} -> [y |-> <<"v">>]
              [] OTHER -> [x |-> <<"k">>, y |-> IF g = "two" /\ t \in {"interval", "area", "rect", "rule"} THEN <<"v", "w">> ELSE IF g = "w" THEN <<"w">> ELSE <<"v">>]
      add == CASE g = "g" -> [group |-> <<"g">>] [] g = "c" -> [color |-> <<"g">>] [] OTHER -> None
      txt == IF t = "text" THEN [text |-> <<"u">>] ELSE None
  IN xy @@ add @@ txt
Types == IF Emit THEN {"interval", "symbol", "line", "area", "text", "cell", "rect", "rectX", "rectY", "rule", "ruleX", "ruleY"} ELSE IF Deep THEN {"interval", "line", "rect"} ELSE {"interval", "line"}
Spans(t) == t \in {"rectX", "rectY", "ruleX", "ruleY"}
Cfgs == {[w |-> 240, h |-> 180, pn |-> 10]}
M(t, did, d, g) == [t |-> t, did |-> did, rows |-> d, enc |-> Enc(t, g), sc |-> None, sty |-> NOSTYLE]
Do(e) == st' = PlotStep(st, e) /\ (hist' = IF Emit THEN Append(hist, e) ELSE <<e>>) /\ k' = k + 1
Modes(t) == IF Emit THEN {"", "g", "c", "w", "two"} ELSE {"", "g", "w"}
(* marks that share a data set have the same rows *)
RowsFor(did) == LET S == {j \in 1..Len(st.ms) : did # "" /\ st.ms[j].did = did} IN IF S = {} THEN Ds ELSE {st.ms[SetMin(S)].rows}
Sharer(i) == st.ms[i].did # "" /\ Cardinality({j \in 1..Len(st.ms) : st.ms[j].did = st.ms[i].did}) > 1
Add == Len(st.ms) < (IF Emit THEN 3 ELSE 2) /\ \E t \in Types, did \in {"", "d"} : \E g \in Modes(t), d \in RowsFor(did) :
         (Spans(t) => st.tr = "none") /\ Do([op |-> "add", m |-> M(t, did, d, g)])
Opts(ch) == CASE ch = "y" -> {[zero |-> 1], [max |-> 20], [dom |-> <<0, 16>>], [id |-> "own"]} [] ch = "x" -> {[padding |-> 50], [type |-> "band"], [type |-> "point"]}
              [] OTHER -> {[rng |-> <<101, 102>>]}
Scl == \E i \in 1..Len(st.ms) : \E ch \in DOMAIN st.ms[i].enc \cap {"x", "y", "group", "color"} : \E o \in Opts(ch) : (Emit \/ ch # "x") /\ Do([op |-> "scale", i |-> i, ch |-> ch, o |-> o])
Encode == \E i \in 1..Len(st.ms) : \/ \E f \in {"v", "w"} : Has(st.ms[i].enc, "y") /\ st.ms[i].enc.y # <<f>> /\ Do([op |-> "enc", i |-> i, ch |-> "y", fs |-> <<f>>])
                                   \/ Emit /\ Has(st.ms[i].enc, "x") /\ Do([op |-> "enc", i |-> i, ch |-> "x", fs |-> <<"g">>])
Styles == {[NOSTYLE EXCEPT !.fill = 201, !.stroke = 202], [NOSTYLE EXCEPT !.max = 20, !.ig = <<"px", 4>>], [NOSTYLE EXCEPT !.cat = <<"px", 10>>, !.ig = <<"pct", 10>>], [NOSTYLE EXCEPT !.min = 30]}
Sty == \E i \in 1..Len(st.ms), y \in Styles : (Emit \/ y.max # NAI) /\ st.ms[i].sty # y /\ Do([op |-> "style", i |-> i, sty |-> y])
Data == \E i \in 1..Len(st.ms), d \in Ds : st.ms[i].rows # d /\ Do([op |-> "data", i |-> i, rows |-> d])
Redo == Emit /\ \E i \in 1..Len(st.ms) : ~Sharer(i) /\ \E g \in Modes(st.ms[i].t), d \in Ds : Do([op |-> "redo", i |-> i, m |-> M(st.ms[i].t, "", d, g)])
Coord == \E t \in {"none", "plain", "swap"} \ {st.tr} : st.tr = "none" /\ (\A i \in 1..Len(st.ms) : ~Spans(st.ms[i].t)) /\ Do([op |-> "coord", tr |-> t])
Size == Emit /\ \E z \in {<<320, 120>>, <<100, 100>>} : z[1] # st.w /\ Do([op |-> "size", w |-> z[1], h |-> z[2]])
Run == k > 0 /\ Emit /\ hist[Len(hist)].op # "run" /\ Do([op |-> "run"])
Change == k < MaxOps /\ (Add \/ Scl \/ Encode \/ Sty \/ Data \/ Redo \/ Coord \/ Size \/ Run)
Obs(p) == [op |-> "run", obs |-> p]
Owned(i) == st.ms[i].did = "" /\ \A j \in 1..Len(st.ms) : j # i => \A a \in DOMAIN st.ms[i].enc \cap DOMAIN st.ms[j].enc : KeyOf(st.ms[i], a) # KeyOf(st.ms[j], a)
Checks ==
  LET pic == TLCEval(Picture(st)) n == Len(st.ms) IN
  \* the picture is accepted, and is the only one that is
  /\ PlotAccept(st, Obs(pic))
  \* a mark with scales and data of its own does not affect the others
  /\ n = 2 /\ Owned(2) => Drawn([st EXCEPT !.ms = <<@[1]>>], 1) = pic[1]
  \* one value has one place on a shared scale
  /\ n = 2 /\ st.tr # "swap" /\ (\A i \in 1..2 : Has(st.ms[i].enc, "y") /\ st.ms[i].t = "line") /\ KeyOf(st.ms[1], "y") = KeyOf(st.ms[2], "y") =>
       LET sc == ScaleFor(st, KeyOf(st.ms[1], "y")) IN \A i \in 1..2 : \A r \in Range(PRows(st, i)) :
          \E p \in 1..Len(pic[i]) : \E q \in Range(pic[i][p].ps) : q.i = r.i /\ q.y = At(sc, r[st.ms[i].enc.y[1]])
  \* a transposed plot is the mirrored plot of the turned box
  /\ st.tr = "swap" => LET b == TLCEval(Picture([st EXCEPT !.tr = "none", !.w = st.h, !.h = st.w])) IN
       \A i \in {j \in 1..n : st.ms[j].t # "interval"} : \A p \in 1..Len(pic[i]) : \A q \in 1..Len(pic[i][p].ps) : pic[i][p].ps[q].x = Flip(b[i][p].ps[q].y, st.w) /\ pic[i][p].ps[q].y = Flip(b[i][p].ps[q].x, st.h)
PlotIn == PlotInv(st)
Init == \E c \in Cfgs : st = Plot0(c) /\ hist = <<[op |-> "reset", cfg |-> c]>> /\ k = 0
Next == Change
Spec == Init /\ [][Next]_<<st, hist, k>>
View == <<st, k>>
EmitAll == (k' = MaxOps /\ k' > k) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
=============================================================================
