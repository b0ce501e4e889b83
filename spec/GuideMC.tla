------------------------------ MODULE GuideMC ------------------------------
(* Bounded model: histories of scale, option, target and theme changes.  What the laws ask for is computed from the     *)
(* state (Ref), accepted, and rejected as soon as one piece of it is left over from another state.                       *)
EXTENDS Guide, Json, CSV, IOUtils
CONSTANTS MaxRuns, MaxOps, Deep, Emit
VARIABLES st, hist, n, k
SC(d, rv, sb, g) == [dom |-> d, rev |-> rv, sub |-> sb, rng |-> g]
Scales0 == [lx |-> SC(<<"0", "10">>, FALSE, FALSE, 0), ly |-> SC(<<"0", "20">>, FALSE, FALSE, 0), bd |-> SC(<<"a", "b", "c">>, FALSE, FALSE, 0), oz |-> SC(<<"a", "b">>, FALSE, FALSE, 0),
            ln |-> SC(<<"0", "10">>, FALSE, FALSE, 0), oc |-> SC(<<"a", "b", "c">>, FALSE, FALSE, 0), lc |-> SC(<<"0", "10">>, FALSE, FALSE, 0), os |-> SC(<<"a", "b", "c", "d">>, FALSE, FALSE, 0)]
Co(t) == IF t = "polar" THEN <<0, 0, 100, 80, 50, 40>> ELSE <<0, 0, 100, 80>>
Cfg(t, x, tg, lt, asg, sk) ==
  [co |-> [t |-> t, v |-> Co(t)], sc |-> Scales0, th |-> "t1", skip |-> sk, asig |-> asg, sig |-> 3, gsig |-> asg, base |-> 1,
   ax |-> [scale |-> x, tick |-> None, ins |-> FALSE, base |-> None, own |-> "", pos |-> <<3, 4>>],
   gr |-> [scale |-> "ly", tgt |-> tg, tick |-> None, ins |-> FALSE, base |-> None, own |-> "", shape |-> "line"],
   lg |-> [scale |-> lt[2], type |-> lt[1], shape |-> "", own |-> ""]]
LTypes == {<<"auto", "oc">>, <<"auto", "ln">>, <<"auto", "lc">>, <<"auto", "oz">>, <<"discrete", "ln">>, <<"size", "lc">>}
Cfgs == {Cfg(t, x, tg, lt, a, sk) : t \in {"cartesian", "polar"}, x \in (IF Deep THEN {"lx", "ly", "bd"} ELSE {"lx"}), tg \in BOOLEAN,
         lt \in (IF Emit THEN LTypes ELSE {<<"auto", "oc">>}), a \in (IF Emit THEN BOOLEAN ELSE {FALSE}), sk \in (IF Emit THEN BOOLEAN ELSE {FALSE})}
Do(e) == st' = GuideStep(st, e) /\ st' # st /\ (hist' = IF Emit THEN Append(hist, e) ELSE <<e>>) /\ k' = k + 1 /\ UNCHANGED n
O(o, kk, v) == Do([op |-> o, k |-> kk, v |-> v])
Change ==
  /\ k < MaxOps /\ n < MaxRuns /\ (Emit => n > 0)
  /\ \/ (\E x \in {"lx", "ly", "bd"} : O("axis", "scale", x)) \/ (\E x \in {"lx", "ly"} : O("grid", "scale", x))
     \/ \E b \in BOOLEAN : O("axis", "ins", b) \/ O("grid", "ins", b) \/ O("grid", "tgt", b)
     \/ O("axis", "base", 1) \/ O("axis", "own", "mine") \/ O("axis", "pos", <<7, 8>>) \/ (~st.gsig /\ O("grid", "base", 1)) \/ O("grid", "own", "own") \/ O("grid", "tick", 3)
     \/ \E h \in {"line", "polygon"} : O("grid", "shape", h)
     \/ \E h \in {"", "os"} : O("legend", "shape", h)
     \/ O("legend", "own", "mine")
     \/ \E q \in LTypes : Do([op |-> "ltype", v |-> q[1], s |-> q[2]])
     \/ \E q \in {<<"lx", <<"2", "40">>>>, <<"ly", <<"1", "5">>>>, <<"bd", <<"c", "a">>>>, <<"oc", <<"b", "a", "b">>>>, <<"ln", <<"3", "9">>>>, <<"lc", <<"0", "5", "20">>>>} : Do([op |-> "dom", s |-> q[1], v |-> q[2]])
     \/ \E q \in {"oc", "os", "lc"} : Do([op |-> "rng", s |-> q, v |-> 1])
     \/ \E q \in {"lx", "ly"}, r \in BOOLEAN, b \in BOOLEAN : Do([op |-> "bind", s |-> q, rev |-> r, sub |-> b])
     \/ Do([op |-> "co", v |-> IF st.co.t = "polar" THEN <<10, 0, 90, 80, 30, 50>> ELSE <<10, 5, 60, 90>>])
     \/ Do([op |-> "theme", v |-> "t2"])
     \/ (st.asig /\ (Do([op |-> "sig", v |-> 8]) \/ Do([op |-> "base", v |-> 30]))) \/ (~st.asig /\ O("axis", "tick", 5))
(* ---- the picture the laws ask for ---- *)
TickRef(s, x) == [key \in {"d", "2", "3", "5", "8"} |-> Map(s.sc[x].dom, LAMBDA d : <<d, key>>)]
Nil2 == <<0, 0>>
PlaceRef(s, x, ins, base) ==
  LET circ == Bound(x) /\ Kind(s, x) = "circle"  pts == IF ~Bound(x) \/ circ \/ s.co.t = "polar" THEN <<Nil2, Nil2>> ELSE Map(Pts(s, x, base), K) IN
  [start |-> pts[1], end |-> pts[2], factor |-> IF Bound(x) /\ ~circ THEN Factor(s, x, ins) ELSE 99, center |-> IF circ THEN K(Origin(s)) ELSE Nil2,
   inner |-> 0, radius |-> IF circ THEN 1000 * Radius(s) ELSE 0, a0 |-> IF circ THEN 0 ELSE 0, a1 |-> IF circ THEN 6283 ELSE 0, inside |-> circ /\ ins]
Ref(s) ==
  LET ticks == [x \in {"lx", "ly", "bd"} |-> TickRef(s, x)]
      gx == IF s.gr.tgt THEN s.ax.scale ELSE s.gr.scale
      ax == [kind |-> Kind(s, s.ax.scale), nest |-> TRUE, items |-> ticks[s.ax.scale][TickKey(AxTick(s))], tag |-> Tag(s, s.ax.own, IF Kind(s, s.ax.scale) = "circle" THEN "circleAxis" ELSE "axis"), pos |-> K(s.ax.pos)] @@ PlaceRef(s, s.ax.scale, s.ax.ins, s.ax.base)
      pl == IF s.gr.tgt THEN PlaceRef(s, gx, s.ax.ins, s.ax.base) ELSE PlaceRef(s, gx, s.gr.ins, GrBase(s))
      gc == IF s.gr.shape # "line" /\ Bound(gx) /\ Kind(s, gx) = "line" THEN IF s.co.t = "polar" /\ ~s.gr.tgt THEN K(Origin(s)) ELSE pl.start ELSE pl.center
      u == Uniq(s.sc[s.lg.scale].dom)  dom == s.sc[s.lg.scale].dom
  IN [op |-> "run", dom |-> [x \in DOMAIN s.sc |-> DomOf(s, x)], ticks |-> ticks, pts |-> [x \in {"none", "b1", "b7", "b30"} |-> <<Nil2, Nil2>>], axis |-> ax,
      grid |-> [kind |-> Kind(s, gx), nest |-> FALSE, items |-> ticks[gx][TickKey(s.gr.tick)], tag |-> Tag(s, s.gr.own, IF Kind(s, gx) = "circle" THEN "circleGrid" ELSE "grid"), pos |-> IF s.gr.tgt THEN K(s.ax.pos) ELSE Nil2, type |-> s.gr.shape, closed |-> TRUE] @@ [pl EXCEPT !.center = gc],
      legend |-> [kind |-> Auto(s), tag |-> Tag(s, s.lg.own, Auto(s) \o "Legend"), items |-> [i \in 1..Len(u) |-> LegendItem(s, u[i], i)], min |-> dom[1], max |-> dom[Len(dom)], value |-> <<dom[1], dom[Len(dom)]>>, colors |-> IF s.lg.scale = "lc" THEN Stops(s.sc.lc) ELSE <<>>]]
Sound == Bad(st, Ref(st)) = {}
(* a change the components would have to show, if one were missed, would be noticed *)
Shown(s) == LET r == Ref(s)  g == [r.grid EXCEPT !.pos = <<0, 0>>, !.type = IF r.grid.kind = "line" THEN @ ELSE ""]  l == r.legend IN
  <<r.axis, g, [l EXCEPT !.items = IF Auto(s) = "discrete" THEN @ ELSE <<>>, !.min = IF Auto(s) = "discrete" THEN "" ELSE @, !.max = IF Auto(s) = "discrete" THEN "" ELSE @, !.value = IF Auto(s) = "size" THEN @ ELSE <<>>, !.colors = IF Auto(s) = "color" THEN @ ELSE <<>>]>>
Tight == [][~Emit => (st' = st \/ (st.ax.pos # st'.ax.pos) \/ Shown(st') = Shown(st) \/ LET old == Ref(st)  new == Ref(st') IN Bad(st', [new EXCEPT !.axis = old.axis, !.grid = old.grid, !.legend = old.legend]) # {})]_<<st, hist, n, k>>
(* a grid that follows an axis lies on it whatever the axis does *)
Follows == LET r == Ref(st) IN (st.gr.tgt /\ r.grid.kind = "line") => <<r.grid.start, r.grid.end, r.grid.factor>> = <<r.axis.start, r.axis.end, r.axis.factor>>
(* turning the scale round or moving the axis to the other side flips the ticks, doing both leaves them *)
Flip == \A x \in {"lx", "ly"} : (st.co.t = "cartesian") =>
  LET t == [st EXCEPT !.sc[x].rev = ~@]  w == [st EXCEPT !.sc[x].sub = ~@] IN Factor(t, x, FALSE) = (0 - Factor(st, x, FALSE)) /\ Factor(w, x, FALSE) = (0 - Factor(st, x, FALSE)) /\ Factor(st, x, TRUE) = (0 - Factor(st, x, FALSE))
GuideIn == GuideInv(st)
Init == \E c \in Cfgs : st = Guide0(c) /\ hist = <<[op |-> "reset", cfg |-> c]>> /\ n = 0 /\ k = 0
Run == n < MaxRuns /\ (n > 0 => k > 0) /\ n' = n + 1 /\ k' = 0 /\ UNCHANGED st /\ (hist' = IF Emit THEN Append(hist, [op |-> "run"]) ELSE <<[op |-> "run"]>>)
Next == Run \/ Change
Spec == Init /\ [][Next]_<<st, hist, n, k>>
View == <<st, n, k>>
EmitAll == (n' = MaxRuns /\ n' > n) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
=============================================================================
