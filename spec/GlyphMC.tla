------------------------------ MODULE GlyphMC ------------------------------
(* Bounded model of composite marks: a transposed glyph is drawn transposed, a moved one moved; states leave no trace.    *)
EXTENDS Glyph, Json, CSV, IOUtils
CONSTANTS MaxOps, Deep, Emit
VARIABLES st, hist, n
F(x) == [f |-> x, v |-> 0]
V(x) == [f |-> "", v |-> x]
R(k, z) == [k |-> k, a |-> 20 + z, b |-> 100 - z, c |-> 44 + z, d |-> 0 - 13, e |-> 60 + 2 * z, f |-> 90 + z, g |-> 75, h |-> 130 + z]
Rows == {<<R(1, 0), R(2, 11)>>, <<R(2, 5)>>, <<R(3, 7), R(1, 2)>>}
Box == [x |-> F("a"), y |-> F("b"), width |-> V(22), height |-> V(30), min |-> F("d"), max |-> F("h"), q1 |-> F("e"), q3 |-> F("f"), fill |-> V(1), stroke |-> V(2)]
Med == Merge(Box, [median |-> F("g")])
Ang == Merge(Med, [angle |-> V(10)])
Bw == Merge(Med, [boxWidth |-> V(14), ruleHeight |-> V(6)])
Lk == [x0 |-> F("a"), y0 |-> F("d"), x1 |-> F("h"), y1 |-> F("f"), thickness |-> V(18)]
Lk2 == Merge(Lk, [round |-> V(0), pathType |-> V(2), ratio |-> V(3), align |-> V(1), fill |-> V(3), backgroundStyle |-> V(4)])
Lk3 == Merge(Lk, [pathType |-> V(1), ratio |-> V(1), align |-> V(2), startArrow |-> V(1), endArrow |-> V(1)])
Tr == [x0 |-> F("a"), y0 |-> F("d"), x1 |-> F("b"), y1 |-> F("f"), startArrow |-> V(1), endArrow |-> V(1)]
Rp == [x |-> F("a"), y |-> F("b"), size |-> V(40), ripple |-> V(1)]
Wv == [y |-> F("a"), height |-> V(30), wave |-> V(2)]
Cu == [p |-> F("a"), q |-> F("b"), w |-> V(10)]
Cu2 == Merge(Cu, [o |-> F("h"), fill |-> V(5)])
Of(t) == CASE t = "boxplot" -> {Box, Med, Ang, Bw} [] t = "barBoxplot" -> {Box, Med, Ang, Merge(Med, [q1q3Width |-> V(12), minMaxFillOpacity |-> V(2)])}
          [] t = "violin" -> {Med, Merge(Ang, [densitySize |-> V(40), violinFill |-> V(6)])} [] t = "ripplePoint" -> {Rp} [] t = "wave" -> {Wv, Merge(Wv, [fillOpacity |-> V(2)])}
          [] t = "linkPath" -> {Lk, Lk2, Lk3} [] t = "treePath" -> {Tr, Merge(Tr, [pathType |-> V(2), round |-> V(0), arrowSize |-> V(9), endArrowStyle |-> V(7)])} [] OTHER -> {Cu, Cu2}
Sts(t, m) == LET col == IF "fill" \in DOMAIN m THEN [fill |-> V(8)] ELSE Empty IN
  CASE t \in {"boxplot", "violin"} -> [h |-> Merge(col, [boxWidth |-> F("c"), boxHeight |-> V(18)]), s |-> [q3 |-> F("h"), boxWidth |-> V(50)]]
    [] t = "barBoxplot" -> [h |-> Merge(col, [q1q3Width |-> F("c"), minMaxHeight |-> V(18)]), s |-> [q1 |-> F("c")]]
    [] t = "ripplePoint" -> [h |-> [ripple |-> V(3)], s |-> [size |-> F("e"), ripple |-> V(9)]]
    [] t = "wave" -> [h |-> [wave |-> V(5)], s |-> [wave |-> F("d")]]
    [] t = "linkPath" -> [h |-> [thickness |-> V(30), curvature |-> V(1)], s |-> [ratio |-> V(2), align |-> V(1)]]
    [] t = "treePath" -> [h |-> [x1 |-> F("e"), pathType |-> V(1)], s |-> [curvature |-> V(3)]]
    [] OTHER -> [h |-> [w |-> V(7)], s |-> [p |-> F("c")]]
Types == {"boxplot", "barBoxplot", "violin", "ripplePoint", "wave", "linkPath", "treePath", "vgCustom"}
Cfgs == {[t |-> t, dir |-> d, enc |-> m, sts |-> Sts(t, m), rows |-> <<R(1, 0), R(2, 11)>>, rng |-> 1, anim |-> a] : t \in Types, d \in {"horizontal", "vertical", ""}, m \in UNION {Of(t2) : t2 \in Types}, a \in (IF Emit THEN BOOLEAN ELSE {FALSE})}
Init == \E c \in {x \in Cfgs : x.enc \in Of(x.t)} : st = Glyph0(c) /\ hist = <<[op |-> "reset", cfg |-> c]>> /\ n = 0
Do(e) == st' = GlyphStep(st, e) /\ (Emit \/ st' # st) /\ (hist' = IF Emit THEN Append(hist, e) ELSE <<e>>) /\ n' = n + 1
Keys == {st.els[i].k : i \in 1..Len(st.els)}
Names == {"h", "s"}
Touch ==
  \/ \E k \in Keys, q \in {<<"h">>, <<"s", "h">>, <<"h", "s">>} : Do([op |-> "use", k |-> k, v |-> q])
  \/ \E k \in Keys, a \in Names : Do([op |-> "add", k |-> k, v |-> <<a>>]) \/ Do([op |-> "rem", k |-> k, n |-> a])
  \/ \E k \in Keys, a \in Names, b \in Names : Do([op |-> "own", k |-> k, n |-> a, v |-> st.sts[b]])
  \/ \E k \in Keys : Do([op |-> "clear", k |-> k])
Next == n < MaxOps /\
  \/ \E q \in Rows : Do([op |-> "rows", v |-> q])
  \/ \E d \in {"horizontal", "vertical"} : Do([op |-> "dir", v |-> d])
  \/ st.t = "violin" /\ Do([op |-> "rng", v |-> 3])
  \/ \E m \in {[x |-> F("g")], [fill |-> V(7)], [width |-> V(60)]} : DOMAIN m \subseteq DOMAIN st.enc /\ Do([op |-> "enc", v |-> m])
  \/ ~(Emit /\ hist[1].cfg.anim) /\ Touch
  \/ \E a \in Names, b \in Names : a # b /\ Do([op |-> "sts", n |-> a, v |-> st.sts[b]])
  \/ Emit /\ \E k \in Keys, c \in {Nil, 40} : (st.t \in {"boxplot", "barBoxplot"} \/ (st.t \in {"linkPath", "treePath"} /\ c = Nil)) /\ Do([op |-> "grow", k |-> k, c |-> c])
Spec == Init /\ [][Next]_<<st, hist, n>>
View == <<st, n>>
(* ---- laws ---- *)
Pairs(g) == [i \in 1..Len(g) |-> IF i % 2 = 1 THEN g[i + 1] ELSE g[i - 1]]
SwapName(c) == CASE c = "x" -> "y" [] c = "y" -> "x" [] c = "width" -> "height" [] c = "height" -> "width" [] c = "boxWidth" -> "boxHeight" [] c = "boxHeight" -> "boxWidth"
                 [] c = "ruleWidth" -> "ruleHeight" [] c = "ruleHeight" -> "ruleWidth" [] c = "minMaxWidth" -> "minMaxHeight" [] c = "minMaxHeight" -> "minMaxWidth"
                 [] c = "q1q3Width" -> "q1q3Height" [] c = "q1q3Height" -> "q1q3Width" [] OTHER -> c
SwapEnc(m) == [c \in {SwapName(x) : x \in DOMAIN m} |-> m[SwapName(c)]]
Swapped(s) == [s EXCEPT !.enc = SwapEnc(@), !.sts = [a \in DOMAIN @ |-> SwapEnc(@[a])], !.els = Map(@, LAMBDA e : [e EXCEPT !.rt = [a \in DOMAIN @ |-> SwapEnc(@[a])]]), !.dir = IF s.dir = "horizontal" THEN "vertical" ELSE "horizontal"]
Boxes == {"boxplot", "barBoxplot", "violin"}
Transposed == st.t \in Boxes => LET a == TLCEval(Shown(st))  b == TLCEval(Shown(Swapped(st))) IN
  \A i \in 1..Len(a), j \in 1..Len(a[1].parts) : b[i].parts[j].g = Pairs(a[i].parts[j].g) /\ b[i].parts[j].anc = Pairs(a[i].parts[j].anc)
Plus(m, cs, x) == [c \in DOMAIN m |-> IF c \in cs THEN m[c] + x ELSE m[c]]
(* a box plot lies between its extremes, its box inside the shaft when the quartiles are *)
Spans == st.t = "boxplot" => \A i \in 1..Len(st.els) : LET A == Attrs(st, st.els[i])  q == Parts(st, st.els[i]) d == IF Horiz(st) THEN 0 ELSE 1 IN
   q[1].g[1 + d] = q[4].g[1 + d] /\ q[1].g[3 + d] = q[3].g[1 + d] /\ q[2].g[1 + d] = U * A.q1 /\ q[2].g[3 + d] = U * A.q3 /\ q[2].g[2 - d] + q[2].g[4 - d] = 2 * Across(st, A)
(* states add nothing that clearing leaves behind *)
Clean == Shown([st EXCEPT !.els = Map(@, LAMBDA e : [e EXCEPT !.st = <<>>, !.rt = Empty])]) = Shown(Glyph0([t |-> st.t, dir |-> st.dir, enc |-> st.enc, sts |-> st.sts, rows |-> st.rows, rng |-> st.rng]))
(* the front of a link covers all of its back at the full ratio, and ripples grow outwards and fade *)
Full == st.t = "linkPath" => \A i \in 1..Len(st.els) : LET A == Attrs(st, st.els[i])  q == LinkPath(st, Merge(A, [ratio |-> 4])) IN q[1].g = q[2].g
Outward == st.t = "ripplePoint" => \A i \in 1..Len(st.els) : LET q == Parts(st, st.els[i]) IN \A j \in 1..3 : q[j + 1].g[1] >= q[j].g[1] /\ (j > 1 => q[j + 1].fo < q[j].fo)
(* only the element a state is given to changes *)
Local == [][~Emit => (hist'[1].op \in {"use", "add", "rem", "own", "clear"} => \A i \in 1..Len(st.els) : st.els[i].k # hist'[1].k => Parts(st', st'.els[i]) = Parts(st, st.els[i]))]_<<st, hist, n>>
GlyphIn == GlyphInv(st)
EmitAll == n' = MaxOps => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
=============================================================================
