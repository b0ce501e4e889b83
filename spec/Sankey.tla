------------------------------- MODULE Sankey -------------------------------
(* Sankey layout as a data transform: nodes, values and layers follow from the data, columns fill the box, links are    *)
(* stacked on the nodes they join.  Lengths are in 1/2000 px.  Data: [t |-> "links"|"nodes"|"tree", nodes, links, tree].  *)
EXTENDS Util
U == 2000
T == 40                                     \* tolerance
Near(a, b) == Abs(a - b) <= T
Sankey0(c) == [data |-> c.data, opt |-> c.opt, box |-> c.box]
(* ------------------------------------------------------------------ graph *)
Nd(k, own, dt) == [k |-> k, own |-> own, dt |-> dt]
Lk(s, t, v, i, n, par) == [s |-> s, t |-> t, v |-> v, i |-> i, n |-> n, par |-> par]
RECURSIVE Ann(_)
Kid(a) == IF a.v < 0 THEN [a EXCEPT !.v = 0] ELSE a
Ann(a) ==   \* a node without a value is worth its children; below a node with a value nothing is derived
  LET ks == IF a.v >= 0 THEN a.c ELSE Map(a.c, Ann)
      v == IF a.v >= 0 THEN a.v ELSE SumSeq(Map(ks, LAMBDA x : Max2(x.v, 0)))
  IN [k |-> a.k, v |-> v, c |-> ks]
RECURSIVE Walk(_, _, _, _, _)
Walk(key, sub, pre, path, top) ==  \* preorder: [k, v, path]
  Concat([i \in 1..Len(sub) |->
    LET a == sub[i]  k == IF key THEN a.k ELSE pre \o "-" \o ToString(i - 1)
    IN <<[k |-> k, v |-> Max2(a.v, 0), path |-> path, dt |-> a.k]>> \o Walk(key, a.c, k, Append(path, k), FALSE)])
TreeG(s) ==
  LET w == Walk(s.opt.key, Map(s.data.tree, Ann), "0", <<>>, TRUE)
      ks == Uniq(Map(w, LAMBDA x : x.k))
      occ(k) == Filter(w, LAMBDA x : x.k = k)
      ls == Filter(w, LAMBDA x : x.path # <<>>)
      pr(x) == <<x.path[Len(x.path)], x.k>>
      ps == Uniq(Map(ls, pr))
      of(p) == Filter([j \in 1..Len(ls) |-> j], LAMBDA j : pr(ls[j]) = p)
  IN [nodes |-> [j \in 1..Len(ks) |-> LET oc == occ(ks[j]) IN Nd(ks[j], IF Len(oc) > 1 THEN 0 - 1 ELSE oc[1].v, oc[1].dt)],
      links |-> [j \in 1..Len(ps) |-> LET is == of(ps[j]) IN Lk(ps[j][1], ps[j][2], SumSeq(Map(is, LAMBDA x : ls[x].v)), is[1] - 1, Len(is), ls[is[1]].path)]]
Key(s, j) == IF s.opt.key THEN s.data.nodes[j].k ELSE ToString(j - 1)
NodesG(s) == LET d == s.data
                 ns == IF d.t = "nodes" THEN [j \in 1..Len(d.nodes) |-> Nd(Key(s, j), d.nodes[j].v, d.nodes[j].k)]
                       ELSE LET ks == Uniq(Concat(Map(d.links, LAMBDA l : <<l.s, l.t>>))) IN [j \in 1..Len(ks) |-> Nd(ks[j], 0 - 1, "")]
                 known == {ns[j].k : j \in 1..Len(ns)}
                 is == Filter([j \in 1..Len(d.links) |-> j], LAMBDA j : {d.links[j].s, d.links[j].t} \subseteq known)
             IN [nodes |-> ns, links |-> [x \in 1..Len(is) |-> LET l == d.links[is[x]] IN Lk(l.s, l.t, l.v, is[x] - 1, is[x] - 1, <<>>)]]
Own(g, k) == (CHOOSE x \in Range(g.nodes) : x.k = k).own
(* share what is left of the value of a node among its links without a value, one link after the other *)
Share(g, k, side) ==
  LET ls == Filter(g.links, LAMBDA l : IF side = "s" THEN l.s = k ELSE l.t = k)
      un == Filter(ls, LAMBDA l : l.v < 0)
      left == Own(g, k) - SumSeq(Map(ls, LAMBDA l : Max2(l.v, 0)))
  IN IF Own(g, k) < 0 THEN {} ELSE {left \div Len(un)}
DivideOne(g, x) == LET l == g.links[x]  c == Share(g, l.s, "s") \cup Share(g, l.t, "t")
                   IN IF c = {} THEN g ELSE [g EXCEPT !.links[x].v = SetMin(c)]
Divide(g) == Fold(DivideOne, g, Filter([x \in 1..Len(g.links) |-> x], LAMBDA x : g.links[x].v < 0))
Outs(g, k) == Filter(g.links, LAMBDA l : l.s = k)
Ins(g, k) == Filter(g.links, LAMBDA l : l.t = k)
Graph(s) == LET g0 == IF s.data.t = "tree" THEN TreeG(s) ELSE NodesG(s)
                g1 == IF s.opt.divide /\ s.data.t # "tree" THEN Divide(g0) ELSE g0
            IN [g1 EXCEPT !.nodes = Filter(@, LAMBDA x : ~s.opt.drop \/ Outs(g1, x.k) # <<>> \/ Ins(g1, x.k) # <<>>)]
SumV(ls) == SumSeq(Map(ls, LAMBDA l : l.v))
Val(g, x) == Max2(Max2(x.own, 0), Max2(SumV(Outs(g, x.k)), SumV(Ins(g, x.k))))
RECURSIVE Fwd(_, _)
Fwd(g, k) == LET is == Ins(g, k) IN IF is = <<>> THEN 0 ELSE 1 + SetMax({Fwd(g, l.s) : l \in Range(is)})
RECURSIVE Bwd(_, _)
Bwd(g, k) == LET os == Outs(g, k) IN IF os = <<>> THEN 0 ELSE 1 + SetMax({Bwd(g, l.t) : l \in Range(os)})
Lay(s, x) == LET h == {j \in 1..Len(s.opt.lay) : s.opt.lay[j].k = x.dt} IN IF s.opt.haslay /\ h # {} THEN s.opt.lay[SetMin(h)].d ELSE 0 - 1
Dep(s, g, x) == IF Lay(s, x) >= 0 THEN Lay(s, x) ELSE Fwd(g, x.k)
MaxD(s, g) == 1 + SetMax({Dep(s, g, x) : x \in Range(g.nodes)})
Layer(s, g, x) ==
  LET md == MaxD(s, g)  al == s.opt.align IN
  CASE s.data.t = "tree" \/ s.opt.haslay \/ al \in {"left", "start"} -> Dep(s, g, x)
    [] al \in {"right", "end"} -> md - 1 - Bwd(g, x.k)
    [] al = "justify" -> IF Outs(g, x.k) # <<>> THEN Fwd(g, x.k) ELSE md - 1
    [] OTHER -> IF Ins(g, x.k) # <<>> THEN Fwd(g, x.k)
                ELSE IF Outs(g, x.k) # <<>> THEN SetMin({Fwd(g, l.t) : l \in Range(Outs(g, x.k))}) - 1 ELSE 0
(* every node with all that follows from the data, and the columns they form *)
Full0(s) == LET g == Graph(s)
                ns == [j \in 1..Len(g.nodes) |-> LET x == g.nodes[j] IN
                         [k |-> x.k, dt |-> x.dt, v |-> Val(g, x), d |-> Dep(s, g, x), ly |-> Layer(s, g, x)]]
                md == IF g.nodes = <<>> THEN 0 ELSE MaxD(s, g)
                col(i) == LET c == Filter(ns, LAMBDA x : x.ly = i)
                          IN CASE s.opt.sort = "asc" -> StableSort(c, LAMBDA a, b : a.v < b.v) [] s.opt.sort = "desc" -> StableSort(c, LAMBDA a, b : a.v > b.v) [] OTHER -> c
            IN [links |-> g.links, nodes |-> ns, md |-> md, cols |-> [i \in 1..md |-> col(i - 1)]]
NodeOf(f, k) == CHOOSE x \in Range(f.nodes) : x.k = k
Column(s, f, i) == f.cols[i + 1]
(* layers set by the user must run along the links; a column must be worth something *)
InScope(s, f) == /\ \A l \in Range(f.links) : l.v >= 1 /\ NodeOf(f, l.s).ly < NodeOf(f, l.t).ly
                 /\ \A i \in 0..(f.md - 1) : Column(s, f, i) # <<>> => SumSeq(Map(Column(s, f, i), LAMBDA x : x.v)) > 0
Relaxed(s) == s.opt.iter > 0 /\ s.data.t # "tree" /\ ~s.opt.haslay /\ s.opt.gapfn = <<>>
(* -------------------------------------------------------------- geometry *)
Vert(s) == s.opt.vert
B0(s) == (IF Vert(s) THEN s.box[2] ELSE s.box[1]) * U    B1(s) == (IF Vert(s) THEN s.box[4] ELSE s.box[3]) * U      \* along the layers
C0(s) == (IF Vert(s) THEN s.box[1] ELSE s.box[2]) * U    C1(s) == (IF Vert(s) THEN s.box[3] ELSE s.box[4]) * U      \* across
WW(s) == B1(s) - B0(s)     HH(s) == C1(s) - C0(s)
Par(tab, v) == tab[1 + (v % 2)]
(* observed coordinates brought back to: x along the layers, y across *)
Base(s, r) == LET q == IF Vert(s) THEN <<r[3], r[4], r[1], r[2]>> ELSE r IN
  IF s.opt.inv THEN <<B0(s) + B1(s) - q[2], B0(s) + B1(s) - q[1], q[3], q[4]>> ELSE q
LBase(s, p) == LET q == IF Vert(s) THEN <<p[2], p[1], p[4], p[3]>> ELSE p IN
  IF s.opt.inv THEN <<B0(s) + B1(s) - q[1], q[2], B0(s) + B1(s) - q[3], q[4]>> ELSE q
MinStep(s, x) == IF s.opt.minstep > 0 THEN Max2(s.opt.minstep * U, x) ELSE x
XW(s, f, n) ==   \* <<position along the layers, width>> of a node
  LET o == s.opt  m == f.md - 1 IN
  CASE o.nw.t = "px" -> LET w == o.nw.v * U
                            lw == IF o.lw.t = "px" THEN o.lw.v * U ELSE MinStep(s, (WW(s) - w) \div Max2(m, 1)) - w
                        IN <<B0(s) + n.ly * (w + lw), w>>
    [] o.nw.t = "pct" -> LET st == MinStep(s, (WW(s) * 100) \div (100 * m + o.nw.v)) IN <<B0(s) + n.ly * st, (st * o.nw.v) \div 100>>
    [] OTHER -> LET cw(i) == LET c == Column(s, f, i) IN
                      IF c = <<>> THEN 0
                      ELSE SetMax({Par(o.nw.tab, x.v) : x \in Range(c)})
                           + SetMax({0} \cup UNION {{IF o.lw.t = "px" THEN o.lw.v ELSE Par(o.lw.tab, l.v) : l \in Range(Outs(f, x.k))} : x \in Range(c)})
                IN <<B0(s) + SumSeq([i \in 1..n.ly |-> cw(i - 1)]) * U, Par(o.nw.tab, n.v) * U>>
None(x) == x < 0
Rows(s, f) == SetMax({Len(Column(s, f, i)) : i \in 0..(f.md - 1)})
MinN(s) == Max2(Max2(s.opt.minn, 0), Max2(s.opt.minl, 0)) * U
MaxN(s) == IF None(s.opt.maxn) THEN 10000000 ELSE s.opt.maxn * U
MaxL(s) == IF None(s.opt.maxl) THEN MaxN(s) ELSE Min2(s.opt.maxl * U, MaxN(s))
Step(s, f) == HH(s) \div Rows(s, f)
(* gap and least height, made smaller together when a row has no room for both *)
GapMin0(s, f) == LET st == Step(s, f)  g == Min2(s.opt.gap * U, st)  mn == MinN(s)
                    g2 == IF mn >= st THEN st \div 2 ELSE (st - mn) \div 2
                IN IF s.opt.gapfn # <<>> THEN <<0, mn>>
                   ELSE IF mn + g > st /\ (s.opt.gap * U <= st \/ mn > 0) THEN <<g2, Min2(st - g2, mn)>> ELSE <<g, mn>>
GapMin(s, f) == f.gm
Gap(s, f, n) == IF s.opt.gapfn # <<>> THEN Par(s.opt.gapfn, n.v) * U ELSE GapMin(s, f)[1]
(* scale of the values: the largest for which every column fits; <<numerator, denominator>> *)
Ky0(s, f) ==
  LET gm == GapMin(s, f)
      cg == IF gm[2] > 0 THEN Max2(gm[1], gm[2]) ELSE gm[1]
      fr(i) == LET c == Column(s, f, i) IN
         <<IF s.opt.gapfn # <<>> THEN HH(s) - SumSeq(Map(c, LAMBDA x : Gap(s, f, x))) ELSE HH(s) - ((Len(c) - 1) * cg + gm[2]), SumSeq(Map(c, LAMBDA x : x.v))>>
      S == {fr(i) : i \in {j \in 0..(f.md - 1) : Column(s, f, j) # <<>>}}
      P == {a \in S : a[2] > 0}
  IN IF P = {} THEN <<0, 1>> ELSE CHOOSE a \in P : \A b \in P : a[1] * b[2] <= b[1] * a[2]
Full(s) == LET f0 == Full0(s) IN
  IF f0.nodes = <<>> THEN f0
  ELSE LET f1 == [gm |-> GapMin0(s, f0)] @@ f0 IN [ky |-> Ky0(s, f1)] @@ f1
Calc(s, f, n) ==
  LET o == s.opt IN
  CASE o.nh.t = "px" -> o.nh.v * U
    [] o.nh.t = "fn" -> Par(o.nh.tab, n.v) * U
    [] o.gapfn = <<>> /\ o.equal /\ Step(s, f) - GapMin(s, f)[1] > 0 -> Step(s, f) - GapMin(s, f)[1]
    [] o.gapfn = <<>> /\ o.equal -> 0
    [] OTHER -> LET ky == f.ky IN Max2(0, (n.v * ky[1]) \div ky[2])
Hgt(s, f, n) == Min2(Max2(Calc(s, f, n), GapMin(s, f)[2]), MaxN(s))
Thick(s, f, l) ==
  LET o == s.opt  n == NodeOf(f, l.s) IN
  CASE o.lh.t = "px" -> o.lh.v * U
    [] o.lh.t = "fn" -> Par(o.lh.tab, l.v) * U
    [] OTHER -> Min2(Max2((Calc(s, f, n) \div n.v) * Min2(l.v, n.v) + ((Calc(s, f, n) % n.v) * Min2(l.v, n.v)) \div n.v, Max2(s.opt.minl, 0) * U), MaxL(s))
(* starts of the nodes of a column before they are aligned, and the room that is left *)
Starts(s, f, c) ==
  LET st == s.opt.gappos = "start"
      cum(j) == SumSeq([x \in 1..j |-> Hgt(s, f, c[x]) + Gap(s, f, c[x])])
  IN [j \in 1..Len(c) |-> C0(s) + cum(j - 1) + (IF st THEN Gap(s, f, c[j]) ELSE 0)]
Room(s, f, c) ==
  LET all == SumSeq(Map(c, LAMBDA x : Hgt(s, f, x) + Gap(s, f, x)))
  IN C1(s) - (C0(s) + all) + (IF s.opt.gappos \in {"start", "end"} THEN 0 ELSE Gap(s, f, c[Len(c)]))
Shifted(y, d(_)) == [j \in 1..Len(y) |-> y[j] + d(j)]
(* acceptable starts of a column; prev: observed columns.  Where the room is nil or the gap just vanishes, both readings *)
Aligned(s, f, c, i, y0) ==
  LET y == Starts(s, f, c)  room == Room(s, f, c)  n == Len(c)
      pc == IF i = 0 THEN <<>> ELSE Filter(Column(s, f, i - 1), LAMBDA x : \E l \in Range(f.links) : l.s = x.k /\ \E z \in Range(c) : z.k = l.t)
      more == CASE s.opt.cross = "start" -> y
                [] s.opt.cross = "end" -> Shifted(y, LAMBDA j : room)
                [] s.opt.cross = "parent" -> IF pc = <<>> THEN y ELSE Shifted(y, LAMBDA j : y0[pc[1].k] - y[1])
                [] OTHER -> Shifted(y, LAMBDA j : (room * j) \div (n + 1))
      g == Gap(s, f, c[n])
      less == {Shifted(y, LAMBDA j : 0 - (((0 - room) * (j - 1)) \div (n - 1)))}
  IN (IF room > 0 - T THEN {more} ELSE {}) \cup (IF Abs(room) <= T THEN {y} ELSE {})
     \cup (IF room >= 0 THEN {} ELSE IF n = 1 THEN {y}
           ELSE (IF g * (n - 1) + room >= 0 - T THEN less ELSE {}) \cup (IF g * (n - 1) + room <= T THEN {y} ELSE {}))
Shrunk(s, f, c) == c # <<>> /\ Room(s, f, c) < T
(* ------------------------------------------------------------- judgement *)
Cols(s, f) == [i \in 1..f.md |-> Column(s, f, i - 1)]
NodesOk(s, f, e) ==
  /\ Len(e.nodes) = Len(f.nodes)
  /\ \A j \in 1..Len(e.nodes) : LET a == e.nodes[j]  b == f.nodes[j]  IN
       a.k = b.k /\ a.v = b.v /\ a.d = b.d /\ a.ly = b.ly /\ a.last = (b.ly = f.md - 1) /\ a.dt = b.dt
LinksOk(s, f, e) ==
  /\ Len(e.links) = Len(f.links)
  /\ \A j \in 1..Len(e.links) : LET a == e.links[j]  b == f.links[j]
                                    ra == (CHOOSE x \in Range(e.nodes) : x.k = b.s).r  rb == (CHOOSE x \in Range(e.nodes) : x.k = b.t).r IN
       /\ a.s = b.s /\ a.t = b.t /\ a.v = b.v /\ a.i = b.i /\ a.n = b.n /\ a.par = b.par
       /\ a.ver = Vert(s) /\ a.sr = ra /\ a.tr = rb /\ Near(a.th, Thick(s, f, b))
XOk(s, f, e) == \A j \in 1..Len(e.nodes) : LET q == Base(s, e.nodes[j].r)  xw == XW(s, f, f.nodes[j]) IN
  Near(q[1], xw[1]) /\ Near(q[2] - q[1], xw[2]) /\ Near(q[4] - q[3], Hgt(s, f, f.nodes[j]))
ColsOk(s, f, e) ==
  LET bk == [k \in {x.k : x \in Range(e.nodes)} |-> Base(s, (CHOOSE x \in Range(e.nodes) : x.k = k).r)]
      y0 == [k \in DOMAIN bk |-> bk[k][3]]
      gp == IF \E i \in 0..(f.md - 1) : Shrunk(s, f, Column(s, f, i)) THEN 0 ELSE GapMin(s, f)[1]
  IN /\ Len(e.cols) = f.md
     /\ \A i \in 1..f.md : LET c == Column(s, f, i - 1)  ks == Map(c, LAMBDA x : x.k)  ec == e.cols[i] IN
          IF Relaxed(s)
          THEN /\ Range(ec) = Range(ks) /\ Len(ec) = Len(ks)
               /\ s.opt.sort # "none" => ec = ks
               /\ \A j \in 2..Len(ec) : y0[ec[j]] >= bk[ec[j - 1]][4] + gp - T
               /\ c # <<>> => y0[ec[1]] >= C0(s) - T
               /\ (c # <<>> /\ SumSeq(Map(c, LAMBDA x : Hgt(s, f, x))) + (Len(c) - 1) * GapMin(s, f)[1] <= HH(s)) => bk[ec[Len(ec)]][4] <= C1(s) + T
          ELSE /\ ec = ks
               /\ c = <<>> \/ \E y \in Aligned(s, f, c, i - 1, y0) : \A j \in 1..Len(c) : Near(y0[ks[j]], y[j])
ByV(o, ls) == CASE o.lsort = "asc" -> StableSort(ls, LAMBDA a, b : a.v < b.v) [] OTHER -> StableSort(ls, LAMBDA a, b : a.v > b.v)
(* order in which the links leave and enter a node: as sorted by the user, else as their other ends lie.  While nodes    *)
(* are relaxed, ends that pass through the same position may be taken either way: only parallel links keep their order.  *)
OrderOk(s, f, e) ==
  LET bk == [k \in {x.k : x \in Range(e.nodes)} |-> Base(s, (CHOOSE x \in Range(e.nodes) : x.k = k).r)]
      lk(i) == CHOOSE l \in Range(f.links) : l.i = i
      same(is, end(_)) == \A a, b \in 1..Len(is) : (a < b /\ end(lk(is[a])) = end(lk(is[b]))) => is[a] < is[b]
  IN \A x \in Range(e.nodes) :
       LET os == Outs(f, x.k)  is == Ins(f, x.k) IN
       /\ Len(x.src) = Len(os) /\ Range(x.src) = {l.i : l \in Range(os)}
       /\ Len(x.tgt) = Len(is) /\ Range(x.tgt) = {l.i : l \in Range(is)}
       /\ IF s.opt.lsort # "none" THEN x.src = Map(ByV(s.opt, os), LAMBDA l : l.i) /\ x.tgt = Map(ByV(s.opt, is), LAMBDA l : l.i)
          ELSE IF Relaxed(s) THEN same(x.src, LAMBDA l : l.t) /\ same(x.tgt, LAMBDA l : l.s)
          ELSE x.src = Map(os, LAMBDA l : l.i) /\ \A a, b \in 1..Len(x.tgt) : a < b => bk[lk(x.tgt[a]).s][3] <= bk[lk(x.tgt[b]).s][3] + T
(* positions on a node: stacked from its near side, those that do not fit end at its far side *)
RECURSIVE Stack(_, _, _, _)
Stack(th, y, y1, full) == IF th = <<>> THEN <<>>
  ELSE LET fits == ~full /\ y + th[1] <= y1 + 5 IN
       <<IF fits THEN y + th[1] \div 2 ELSE y1 - th[1] \div 2>> \o Stack(Tail(th), IF fits THEN y + th[1] ELSE y, y1, ~fits)
Side(s, f, q, th) ==
  LET ov == s.opt.over IN
  IF ov = "none" THEN Stack(th, q[3], q[4], FALSE)
  ELSE Map(th, LAMBDA h : CASE ov = "start" -> q[3] + h \div 2 [] ov = "end" -> q[4] - h \div 2 [] OTHER -> (q[3] + q[4]) \div 2)
EndsOk(s, f, e) ==
  LET li(i) == CHOOSE l \in Range(e.links) : l.i = i IN
  \A x \in Range(e.nodes) : LET q == Base(s, x.r)
                                so == Side(s, f, q, Map(x.src, LAMBDA i : li(i).th))  ti == Side(s, f, q, Map(x.tgt, LAMBDA i : li(i).th)) IN
    /\ \A j \in 1..Len(x.src) : LET p == LBase(s, li(x.src[j]).p) IN Near(p[1], q[2]) /\ Near(p[2], so[j])
    /\ \A j \in 1..Len(x.tgt) : LET p == LBase(s, li(x.tgt[j]).p) IN Near(p[3], q[1]) /\ Near(p[4], ti[j])
(* shapes for drawing: rectangles, straight and curved ribbons, the extent of all nodes *)
NearSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i])
Ribbon(s, l, curved) ==
  LET h == l.th \div 2  x0 == l.p[1]  y0 == l.p[2]  x1 == l.p[3]  y1 == l.p[4] IN
  IF Vert(s) THEN LET m == (y0 + y1) \div 2 IN
    IF curved THEN <<x0 - h, y0, x0 - h, m, x1 - h, m, x1 - h, y1, x1 + h, y1, x1 + h, m, x0 + h, m, x0 + h, y0>> ELSE <<x0 - h, y0, x1 - h, y1, x1 + h, y1, x0 + h, y0>>
  ELSE LET m == (x0 + x1) \div 2 IN
    IF curved THEN <<x0, y0 - h, m, y0 - h, m, y1 - h, x1, y1 - h, x1, y1 + h, m, y1 + h, m, y0 + h, x0, y0 + h>> ELSE <<x0, y0 - h, x1, y1 - h, x1, y1 + h, x0, y0 + h>>
ShapesOk(s, e) ==
  LET rs == {x.r : x \in Range(e.nodes)}  a == SetMin({r[1] : r \in rs})  b == SetMax({r[2] : r \in rs})  c == SetMin({r[3] : r \in rs})  d == SetMax({r[4] : r \in rs}) IN
  /\ Len(e.fr) = Len(e.nodes) /\ \A j \in 1..Len(e.fr) : LET r == e.nodes[j].r IN NearSeq(e.fr[j], <<r[1], r[3], r[2] - r[1], r[4] - r[3]>>)
  /\ Len(e.pg) = Len(e.links) /\ Len(e.pt) = Len(e.links) /\ Len(e.pr) = Len(e.links)
  /\ \A j \in 1..Len(e.links) : LET l == e.links[j]  q == Ribbon(s, l, TRUE) IN
       /\ NearSeq(e.pg[j], Ribbon(s, l, FALSE)) /\ NearSeq(e.pt[j], q)
       /\ Len(e.pr[j]) = Len(q) /\ \A i \in 1..Len(q) : Abs(e.pr[j][i] * U - q[i]) <= U \div 2 + T
  /\ NearSeq(e.bd, <<a, b, c, d, b - a, d - c>>)
Empty(f) == f.nodes = <<>>
(* worthless links have no definite place, but who is linked and what everything is worth is as definite as ever *)
ValuesOk(f, e) == /\ Map(e.nodes, LAMBDA x : <<x.k, x.v>>) = Map(f.nodes, LAMBDA x : <<x.k, x.v>>)
                  /\ Map(e.links, LAMBDA x : <<x.s, x.t, x.v>>) = Map(f.links, LAMBDA x : <<x.s, x.t, x.v>>)
Good(s, e) == LET f == Full(s) IN
  IF Empty(f) THEN e.nul
  ELSE IF ~InScope(s, f) THEN e.nul \/ (\E l \in Range(f.links) : l.v < 0) \/ ValuesOk(f, e)
  ELSE ~e.nul /\ NodesOk(s, f, e) /\ LinksOk(s, f, e) /\ XOk(s, f, e) /\ ColsOk(s, f, e) /\ OrderOk(s, f, e) /\ EndsOk(s, f, e) /\ ShapesOk(s, e)
SankeyStep(s, e) == CASE e.op = "data" -> [s EXCEPT !.data = e.data] [] e.op = "opt" -> [s EXCEPT !.opt = e.opt] [] e.op = "box" -> [s EXCEPT !.box = e.box] [] OTHER -> s
SankeyAccept(s, e) == e.op # "threw" /\ (e.op = "run" => Good(s, e))
SankeyExplain(s, e) == LET f == Full(s) IN
  IF e.op # "run" THEN "no error" ELSE IF Empty(f) \/ e.nul THEN "empty?"
  ELSE IF ~ValuesOk(f, e) THEN "values should be " \o ToString(<<Map(f.nodes, LAMBDA x : <<x.k, x.v>>), Map(f.links, LAMBDA x : <<x.s, x.t, x.v>>)>>)
  ELSE IF ~NodesOk(s, f, e) THEN "nodes (value, depth, layer) should be " \o ToString(f.nodes)
  ELSE IF ~LinksOk(s, f, e) THEN "links should be " \o ToString(f.links) \o " thick " \o ToString(Map(f.links, LAMBDA l : Thick(s, f, l)))
  ELSE IF ~XOk(s, f, e) THEN "extents should be " \o ToString(Map(f.nodes, LAMBDA n : <<n.k, XW(s, f, n), Hgt(s, f, n)>>)) \o " are " \o ToString(Map(e.nodes, LAMBDA x : Base(s, x.r)))
  ELSE IF ~ColsOk(s, f, e) THEN "columns should be " \o ToString([i \in 1..f.md |-> LET c == Column(s, f, i - 1) IN IF c = <<>> THEN <<>> ELSE <<Map(c, LAMBDA x : x.k), Starts(s, f, c), Room(s, f, c)>>]) \o " are " \o ToString(Map(e.nodes, LAMBDA x : <<x.k, Base(s, x.r)>>))
  ELSE IF ~OrderOk(s, f, e) THEN "order of links at a node" ELSE IF ~EndsOk(s, f, e) THEN "positions of link ends on a node" ELSE "shapes for drawing"
SankeyInv(s) == LET f == Full(s) IN
  \/ Empty(f) \/ ~InScope(s, f)
  \/ /\ \A x \in Range(f.nodes) : x.ly \in 0..(f.md - 1) /\ x.v >= SumV(Outs(f, x.k)) /\ x.v >= SumV(Ins(f, x.k))
     /\ \A i \in 0..(f.md - 1) : s.opt.haslay \/ Column(s, f, i) # <<>>
=============================================================================
