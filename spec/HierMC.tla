------------------------------ MODULE HierMC --------------------------------
(* Bounded model: histories of hierarchies, options and boxes; the laws of Hier accept reference layouts computed here *)
(* and reject them as soon as one node is displaced; source of behaviours.                                            *)
EXTENDS Hier, Json, CSV, IOUtils
CONSTANTS MaxRuns, MaxOps, Types, Small, Emit
VARIABLES st, hist, n, k
N0(nm, v) == [k |-> nm, v |-> v, c |-> <<>>]
P0(nm, v, c) == [k |-> nm, v |-> v, c |-> c]
TreeA == P0("a", 0 - 1, <<N0("b", 3), P0("c", 0 - 1, <<N0("d", 2), N0("e", 4)>>), N0("f", 1)>>)
TreeB == P0("a", 12, <<P0("b", 0 - 1, <<P0("c", 0 - 1, <<N0("d", 2), N0("e", 1)>>), N0("f", 3)>>), P0("g", 0 - 1, <<N0("h", 2), N0("i", 1), N0("j", 1)>>)>>)
TreeC == N0("a", 5)
TreeD == P0("a", 0 - 1, <<P0("b", 9, <<P0("c", 0 - 1, <<N0("d", 1)>>)>>)>>)
Trees(t) == {<<TreeA>>, <<TreeB>>, <<TreeC>>, <<TreeD>>} \cup (IF t = "tree" THEN {} ELSE {<<TreeC, P0("z", 0 - 1, <<N0("y", 3), N0("x", 1)>>)>>})
Boxes == {<<0, 0, 60, 40>>, <<10, 20, 50, 90>>, <<80, 4, 20, 44>>}
K(v) == [c |-> TRUE, v |-> <<v>>]
Ls(v) == [c |-> FALSE, v |-> v]
Ps(p, v) == [p |-> p, v |-> v]
Base(t, flat, md) == [type |-> t, flat |-> flat, maxd |-> md, key |-> ~flat]
NoLab == [has |-> FALSE, al |-> "", rot |-> "", off |-> 0]
Lab(al, rot) == [has |-> TRUE, al |-> al, rot |-> rot, off |-> 2]
Opts(t) ==
  CASE t = "treemap" -> {[flat |-> f, maxd |-> m, key |-> ~f, type |-> t, gap |-> g, pad |-> p, lab |-> l, lpos |-> pos, mva |-> K(0), split |-> sp, mca |-> 0 - 1, mcs |-> cs] :
                           f \in BOOLEAN, m \in {0 - 1, 1}, g \in {K(0), Ls(<<2, 4>>)}, p \in {K(0), K(3)}, l \in {K(0), Ls(<<6>>)}, pos \in {"top", "right"}, sp \in {"dice", "slice", "sliceDice", "binary", "squarify"}, cs \in {0 - 1, 18}}
    [] t = "sunburst" -> {[flat |-> f, maxd |-> m, key |-> ~f, type |-> t, sa |-> a, ea |-> b, cen |-> <<Ps(TRUE, 50), Ps(FALSE, 12)>>, inn |-> i, out |-> o, gapr |-> g, label |-> l] :
                           f \in BOOLEAN, m \in {0 - 1, 1}, a \in {0, 15708}, b \in {62832, 0 - 47124}, i \in {K(Ps(FALSE, 3)), Ls(<<Ps(TRUE, 10), Ps(TRUE, 40), Ps(TRUE, 70)>>)}, o \in {K(Ps(TRUE, 90)), Ls(<<Ps(TRUE, 40), Ps(FALSE, 16)>>)},
                           g \in {K(0), K(1)}, l \in {K(NoLab), Ls(<<Lab("start", "radial"), Lab("center", "tangential"), NoLab>>)}}
    [] t = "tree" -> {[flat |-> f, maxd |-> m, key |-> ~f, type |-> t, dir |-> d, lay |-> y, al |-> a, gap |-> gl[1], lw |-> gl[2]] :
                           f \in BOOLEAN, m \in {0 - 1, 1}, d \in {"horizontal", "TB", "BT", "RL"}, y \in {"orthogonal"}, a \in {"leaf", "depth"}, gl \in {<<0 - 1, 0 - 1>>, <<6, 9>>, <<5, 0 - 1>>}}
                     \cup {[flat |-> f, maxd |-> 0 - 1, key |-> ~f, type |-> t, dir |-> "TB", lay |-> "radial", al |-> a, gap |-> 0 - 1, lw |-> 0 - 1] : f \in BOOLEAN, a \in {"leaf", "depth"}}
    [] OTHER -> {[flat |-> f, maxd |-> m, key |-> ~f, type |-> t, sort |-> s, pad |-> p, rad |-> r, root |-> q] : f \in BOOLEAN, m \in {0 - 1, 1}, s \in {"desc", "asc", "none"}, p \in {K(0), Ls(<<0, 2, 1>>)}, r \in BOOLEAN, q \in BOOLEAN}
(* -------------------------------------------------------- reference layouts *)
Node(s, a, leaf, g, l) == [k |-> a.k, pk |-> a.pk, d |-> a.d, i |-> a.i, fi |-> a.fi, leaf |-> leaf, v |-> a.v, md |-> Depth(s.tree), dl |-> a.d + 1, nc |-> IF leaf THEN 0 ELSE Len(a.ch), g |-> g, l |-> l, lb |-> <<>>, xy |-> g]
Shrink(s, d, r) == LET q == At(s.opt.gap, d) * (U \div 2)
                       F(a, b) == IF a + q > b - q THEN <<(a + b) \div 2, (a + b) \div 2>> ELSE <<a + q, b - q>>
                   IN <<F(r[1], r[3])[1], F(r[2], r[4])[1], F(r[1], r[3])[2], F(r[2], r[4])[2]>>
RECURSIVE RefT(_, _, _, _, _)
RefT(s, as, d, pv, area) ==     \* children as of a node at depth d
  LET o == s.opt
      dim == CASE o.split = "dice" -> 1 [] o.split = "slice" -> 2 [] OTHER -> IF d % 2 = 1 THEN 2 ELSE 1
      Cum(i) == SumSeq(Map(SubSeq(as, 1, i), LAMBDA x : x.v))
      At2(c) == IF pv = 0 THEN area[dim] ELSE area[dim] + ((area[dim + 2] - area[dim]) * c) \div pv
      One(i) == LET a == as[i]
                    r0 == IF dim = 1 THEN <<At2(Cum(i - 1)), area[2], At2(Cum(i)), area[4]>> ELSE <<area[1], At2(Cum(i - 1)), area[3], At2(Cum(i))>>
                    r == Shrink(s, a.d, r0)
                    open == a.ch # <<>> /\ Opens(s, a.d, r0) = 1
                    con == Content(s, a.d, r)
                IN <<Node(s, a, ~open, r, IF open THEN con.l ELSE <<>>)>> \o (IF open THEN RefT(s, a.ch, a.d, a.v, Grown(s, a.d + 1, con.c)) ELSE <<>>)
  IN Concat([i \in 1..Len(as) |-> One(i)])
RECURSIVE RefS(_, _, _, _, _, _)
RefS(s, R, as, pv, a0, a1) ==
  LET Cum(i) == SumSeq(Map(SubSeq(as, 1, i), LAMBDA x : x.v))
      F(c) == IF pv = 0 THEN a0 ELSE a0 + ((a1 - a0) * c) \div pv
      One(i) == LET a == as[i]  rr == R[a.d + 1]  open == a.ch # <<>> /\ (~s.opt.flat \/ s.opt.maxd < 0 \/ a.d < s.opt.maxd)
                    g == <<Min2(rr[1], rr[2]), Max2(rr[1], rr[2]), F(Cum(i - 1)), F(Cum(i)), X0(s) * U + Pos(s.opt.cen[1], W(s) * U), Y0(s) * U + Pos(s.opt.cen[2], H(s) * U)>>
                IN <<Node(s, a, ~open, g, <<>>)>> \o (IF open THEN RefS(s, R, a.ch, a.v, g[3], g[4]) ELSE <<>>)
  IN Concat([i \in 1..Len(as) |-> One(i)])
(* leaves in order, parents above the mean of their children *)
RECURSIVE CPos(_, _)
CPos(all, j) == LET ks == Filter([x \in 1..Len(all) |-> x], LAMBDA x : all[x].p = j) IN
  IF ks # <<>> THEN SumSeq(Map(ks, LAMBDA x : CPos(all, x))) \div Len(ks)
  ELSE LET ls == Filter([x \in 1..j |-> x], LAMBDA x : all[x].nc = 0) IN SumSeq([i \in 1..(Len(ls) - 1) |-> 432 * Sep(all[ls[i]], all[ls[i + 1]])])
RefC(s) ==
  LET o == s.opt  all == All(s)  N == 1..Len(all)
      ls == Filter([x \in N |-> x], LAMBDA x : all[x].nc = 0)
      fixed == o.gap >= 0 /\ o.lw >= 0
      sp == 216 * Sep(all[ls[1]], all[ls[Len(ls)]])
      x1 == CPos(all, ls[Len(ls)]) + sp
      v == Vert(o)
      lo == (IF v THEN X0(s) ELSE Y0(s)) * U   ext == (IF v THEN W(s) ELSE H(s)) * U
      mlo == (IF v THEN Y0(s) ELSE X0(s)) * U  mext == (IF v THEN H(s) ELSE W(s)) * U
      hr == Height(all, 1)
      c(j) == IF fixed THEN lo + ((CPos(all, j) - CPos(all, 1)) * o.gap * U) \div 432
              ELSE IF o.gap >= 0 THEN lo + ((CPos(all, j) + sp) * o.gap * U) \div 432 ELSE lo + ((CPos(all, j) + sp) * ext) \div (x1 + sp)
      m(j) == LET y == IF fixed THEN (hr - Height(all, j)) * o.lw * U ELSE IF hr = 0 THEN 0 ELSE ((hr - Height(all, j)) * mext) \div hr IN IF o.dir \in {"BT", "RL"} THEN mlo + mext - y ELSE mlo + y
      P(j) == IF v THEN <<c(j), m(j)>> ELSE <<m(j), c(j)>>
      Anns == Ann(o, s.tree, 0, "", 0)
  IN [j \in N |-> [k |-> all[j].k, pk |-> all[j].pk, d |-> all[j].d, i |-> all[j].i, fi |-> all[j].fi, leaf |-> all[j].nc = 0, v |-> all[j].v, md |-> Depth(s.tree), dl |-> all[j].d + 1, nc |-> all[j].nc,
                   g |-> P(j), l |-> <<>>, lb |-> <<>>, xy |-> P(j)]]
HasRef(s) == LET o == s.opt IN
  CASE o.type = "treemap" -> o.split \in {"dice", "slice", "sliceDice"}
    [] o.type = "sunburst" -> o.label.c
    [] o.type = "tree" -> o.al = "leaf" /\ o.lay = "orthogonal" /\ (~o.flat) /\ ~(o.lw >= 0 /\ o.gap < 0)
    [] OTHER -> FALSE
Ref(s) == LET anns == Ann(s.opt, s.tree, 0, "", 0) IN
  CASE s.opt.type = "treemap" -> RefT(s, anns, 0 - 1, Total(s), Grown(s, 0, <<X0(s) * U, Y0(s) * U, X1(s) * U, Y1(s) * U>>))
    [] s.opt.type = "sunburst" -> RefS(s, Radii(s), anns, Total(s), s.opt.sa, s.opt.ea)
    [] OTHER -> RefC(s)
Seen(o) == [op |-> "run", obs |-> o, links |-> <<>>, rootg |-> <<>>]
(* every reference layout satisfies the laws ... *)
Sound == HasRef(st) => Good(st, Seen(Ref(st)))
(* ... and none does once a node has been moved (rectangles that have collapsed cannot be told apart) *)
Moved(o, j, x) == [o EXCEPT ![j].g[x] = @ + 90]
Tight == HasRef(st) => LET o == Ref(st) IN
  \A j \in 1..Len(o) : LET g == o[j].g IN
    \A x \in 1..Len(g) : (st.opt.type = "treemap" /\ (g[3] - g[1] < 100 \/ g[4] - g[2] < 100)) \/ ~Good(st, Seen(Moved(o, j, x)))
(* the hierarchy as a list: in order of the rows, values of parents at least the sum of their children *)
Listed == LET a == All(st) IN /\ {a[j].fi : j \in 1..Len(a)} = 0..(Len(a) - 1) /\ \A j \in 1..Len(a) : a[j].p < j /\ (a[j].p > 0 => a[a[j].p].d = a[j].d - 1 /\ a[a[j].p].v >= SumSeq(Map(Filter([x \in 1..Len(a) |-> x], LAMBDA x : a[x].p = a[j].p), LAMBDA x : a[x].v)))
Inv == HierInv(st) /\ Listed /\ Sound /\ (~Emit => Tight)
Host(o) == IF o.type \in {"treemap", "sunburst"} /\ o.flat THEN {"data", "mark"} ELSE {"data"}
Init == \E t \in Types : \E tr \in Trees(t), o \in {x \in Opts(t) : Small => (~x.flat /\ x.maxd < 0)}, b \in (IF Small THEN {<<10, 20, 50, 90>>} ELSE Boxes) :
          \E h \in (IF Emit THEN Host(o) ELSE {"data"}) :
          LET c == [tree |-> tr, opt |-> o, box |-> b, host |-> h, corners |-> TRUE] IN st = Hier0(c) /\ hist = <<[op |-> "reset", cfg |-> c]>> /\ n = 0 /\ k = 0
Add(e) == hist' = IF Emit THEN Append(hist, e) ELSE <<e>>
HostOk(o) == hist[1].op # "reset" \/ hist[1].cfg.host = "data" \/ o.flat
Change == /\ k < MaxOps /\ n < MaxRuns /\ (Emit => n > 0)
          /\ \E e \in {[op |-> "tree", tree |-> t] : t \in Trees(st.opt.type)} \cup {[op |-> "box", box |-> b] : b \in Boxes} \cup {[op |-> "opt", opt |-> o] : o \in {x \in Opts(st.opt.type) : HostOk(x)}} :
               st' = HierStep(st, e) /\ st' # st /\ Add(e) /\ k' = k + 1 /\ UNCHANGED n
Run == n < MaxRuns /\ (n > 0 => k > 0) /\ n' = n + 1 /\ k' = 0 /\ UNCHANGED st /\ Add([op |-> "run"])
Next == Run \/ Change
Spec == Init /\ [][Next]_<<st, hist, n, k>>
View == st
EmitAll == (n' = MaxRuns /\ n' > n) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
==============================================================================
