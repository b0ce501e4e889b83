-------------------------------- MODULE Hier --------------------------------
(* Layouts of hierarchies as transforms of a view: treemap, sunburst, tree and  *)
(* circle packing.  The state is the hierarchy, the options and the box; a run  *)
(* shows the nodes with their relations, values and geometry, which have to     *)
(* satisfy the geometric laws below.  Lengths are in 1/20 px, angles in 1/10000 *)
(* radian.  A node is [k, v, c]: name, value (-1: none) and children.           *)
EXTENDS Util, TLC
U == 20
TWOPI == 62832
NoObs == <<>>
At(f, d) == IF d < 0 THEN 0 ELSE IF f.c THEN f.v[1] ELSE IF d + 1 <= Len(f.v) THEN f.v[d + 1] ELSE 0
Near(a, b, t) == Abs(a - b) <= t
ModTwoPi(a) == a % TWOPI
NearAngle(a, b, t) == LET d == ModTwoPi(a - b) IN d <= t \/ TWOPI - d <= t

RECURSIVE Val(_)
Val(n) == IF n.c = <<>> THEN Max2(0, n.v) ELSE Max2(n.v, SumSeq(Map(n.c, LAMBDA x : Val(x))))
RECURSIVE Size(_)
Size(ns) == SumSeq(Map(ns, LAMBDA x : 1 + Size(x.c)))
RECURSIVE Depth(_)
Depth(ns) == IF ns = <<>> THEN 0 - 1 ELSE 1 + SetMax({Depth(n.c) : n \in Range(ns)})
(* the hierarchy with keys, depths, indices and values *)
RECURSIVE Ann(_, _, _, _, _)
Ann(o, ns, d, pk, fi) == [i \in 1..Len(ns) |->
  LET n == ns[i]
      f == fi + Size(SubSeq(ns, 1, i - 1))
      key == IF o.key THEN n.k ELSE pk \o "-" \o ToString(i - 1)
  IN [k |-> key, pk |-> pk, d |-> d, i |-> i - 1, fi |-> f, v |-> Val(n), ch |-> Ann(o, n.c, d + 1, key, f + 1)]]
RECURSIVE Sorted(_, _)
Sorted(o, as) == LET q == Map(as, LAMBDA x : [x EXCEPT !.ch = Sorted(o, @)]) IN
  CASE o.type = "circlePacking" /\ o.sort = "desc" -> StableSort(q, LAMBDA a, b : a.v > b.v)
    [] o.type = "circlePacking" /\ o.sort = "asc" -> StableSort(q, LAMBDA a, b : a.v < b.v)
    [] OTHER -> q
RECURSIVE Count(_)
Count(as) == SumSeq(Map(as, LAMBDA x : 1 + Count(x.ch)))
RECURSIVE Flat(_, _, _)
Flat(as, p, at) == IF as = <<>> THEN <<>> ELSE
  LET a == Head(as) IN <<[k |-> a.k, pk |-> a.pk, d |-> a.d, i |-> a.i, fi |-> a.fi, v |-> a.v, nc |-> Len(a.ch), p |-> p]>>
    \o Flat(a.ch, at, at + 1) \o Flat(Tail(as), p, at + 1 + Count(a.ch))
All(s) == Flat(Sorted(s.opt, Ann(s.opt, s.tree, 0, "", 0)), 0, 1)
Total(s) == SumSeq(Map(s.tree, LAMBDA n : Val(n)))

Hier0(cfg) == [tree |-> cfg.tree, opt |-> cfg.opt, box |-> cfg.box]
HierStep(s, e) == CASE e.op = "tree" -> [s EXCEPT !.tree = e.tree] [] e.op = "opt" -> [s EXCEPT !.opt = e.opt] [] e.op = "box" -> [s EXCEPT !.box = e.box] [] OTHER -> s
(* the box may be given by any two opposite corners *)
X0(s) == Min2(s.box[1], s.box[3])
X1(s) == Max2(s.box[1], s.box[3])
Y0(s) == Min2(s.box[2], s.box[4])
Y1(s) == Max2(s.box[2], s.box[4])
W(s) == X1(s) - X0(s)
H(s) == Y1(s) - Y0(s)

(* ------------------------------------------------- which nodes are shown *)
Shown0(o, d) == ~o.flat \/ o.maxd < 0 \/ d <= o.maxd
G(obs, k) == LET i == CHOOSE j \in 1..Len(obs) : obs[j].k = k IN obs[i].g
In(obs, k) == \E j \in 1..Len(obs) : obs[j].k = k
AreaOk(s, a) == LET m == At(s.opt.mva, a.d) IN m = 0 \/ a.v * W(s) * H(s) >= m * Total(s)
(* 1: children are shown, 0: they are not, 2: too close to tell *)
Opens(s, d, r) == LET w == r[3] - r[1]  h == r[4] - r[2]  o == s.opt
                      By(x, lim, t) == IF x > lim + t THEN 1 ELSE IF x < lim - t THEN 0 ELSE 2
                      a == IF o.mca < 0 THEN 1 ELSE By(w * h, o.mca * U * U, 3 * (w + h) + 9)
                      b == IF o.mcs < 0 THEN 1 ELSE By(Min2(w, h), o.mcs * U, 3)
                  IN IF o.maxd >= 0 /\ d >= o.maxd THEN 0 ELSE IF a = 0 \/ b = 0 THEN 0 ELSE IF a = 2 \/ b = 2 THEN 2 ELSE 1
Grown(s, d, r) == LET q == At(s.opt.gap, d) * (U \div 2) IN <<r[1] - q, r[2] - q, r[3] + q, r[4] + q>>
(* the set of indices of All that are shown *)
RECURSIVE MapShown(_, _, _, _, _)
MapShown(s, all, obs, j, acc) ==
  IF j > Len(all) THEN acc
  ELSE LET a == all[j]
           par == a.p > 0
           reach == ~par \/ a.p \in acc
           open == IF ~reach THEN 0 ELSE IF ~par THEN Opens(s, 0 - 1, <<X0(s) * U, Y0(s) * U, X1(s) * U, Y1(s) * U>>)
                   ELSE IF ~In(obs, all[a.p].k) THEN 0 ELSE LET g == G(obs, all[a.p].k) IN IF g[3] <= g[1] \/ g[4] <= g[2] THEN (IF s.opt.mca < 0 /\ s.opt.mcs < 0 THEN Opens(s, all[a.p].d, g) ELSE 2) ELSE Opens(s, all[a.p].d, Grown(s, all[a.p].d, g))
           here == reach /\ AreaOk(s, a) /\ (open = 1 \/ (open = 2 /\ In(obs, a.k)))
       IN MapShown(s, all, obs, j + 1, IF here THEN acc \cup {j} ELSE acc)
ShownSet(s, all, obs) ==
  IF s.opt.type = "treemap" THEN (IF Total(s) <= 0 THEN {} ELSE MapShown(s, all, obs, 1, {})) ELSE {j \in 1..Len(all) : Shown0(s.opt, all[j].d)}
Visible(s, obs) == LET all == All(s)  S == ShownSet(s, all, obs) IN
  [list |-> Concat([j \in 1..Len(all) |-> IF j \in S THEN <<all[j]>> ELSE <<>>]),
   at |-> [j \in S |-> Cardinality({x \in S : x <= j})]]
Kids(vis, at, p) == Filter([j \in 1..Len(vis) |-> j], LAMBDA j : (IF vis[j].p = 0 THEN 0 ELSE at[vis[j].p]) = p)

(* --------------------------------------------------------------- treemap *)
Inside(a, b, t) == a[1] >= b[1] - t /\ a[2] >= b[2] - t /\ a[3] <= b[3] + t /\ a[4] <= b[4] + t
Flatten0(r) == r[3] <= r[1] \/ r[4] <= r[2]
Overlap(a, b) == <<Min2(a[3], b[3]) - Max2(a[1], b[1]), Min2(a[4], b[4]) - Max2(a[2], b[2])>>
(* the rectangle children may use and the one for the label of a parent at depth d drawn at r *)
Content(s, d, r) ==
  LET pad == At(s.opt.pad, d) * U
      q == IF pad > 0 /\ 2 * pad < Min2(r[3] - r[1], r[4] - r[2]) THEN <<r[1] + pad, r[2] + pad, r[3] - pad, r[4] - pad>> ELSE r
      l == At(s.opt.lab, d) * U
      pos == s.opt.lpos
  IN IF l <= 0 THEN [c |-> q, l |-> <<>>]
     ELSE CASE pos = "top" /\ q[2] + l < q[4] -> [c |-> <<q[1], q[2] + l, q[3], q[4]>>, l |-> <<q[1], q[2], q[3], q[2] + l>>]
            [] pos = "bottom" /\ q[4] - l > q[2] -> [c |-> <<q[1], q[2], q[3], q[4] - l>>, l |-> <<q[1], q[4] - l, q[3], q[4]>>]
            [] pos = "left" /\ q[1] + l < q[3] -> [c |-> <<q[1] + l, q[2], q[3], q[4]>>, l |-> <<q[1], q[2], q[1] + l, q[4]>>]
            [] pos = "right" /\ q[3] - l > q[1] -> [c |-> <<q[1], q[2], q[3] - l, q[4]>>, l |-> <<q[3] - l, q[2], q[3], q[4]>>]
            [] OTHER -> [c |-> q, l |-> <<>>]
Knife(s, d, r) == (* too close to tell whether padding or label fit *)
  LET pad == At(s.opt.pad, d) * U  l == At(s.opt.lab, d) * U  m == Min2(r[3] - r[1], r[4] - r[2])
      q == IF pad > 0 /\ 2 * pad < m THEN 2 * pad ELSE 0 IN
  (pad > 0 /\ Near(2 * pad, m, 3)) \/ (l > 0 /\ (Near(l, r[3] - r[1] - q, 4) \/ Near(l, r[4] - r[2] - q, 4)))
Stack(s, pv, area, cs, vals, dim) == \* the children in order along dimension dim (1: x, 2: y)
  LET w == area[dim + 2] - area[dim] IN
  \A i \in 1..Len(cs) : LET cum == SumSeq(SubSeq(vals, 1, i - 1)) IN
    Flatten0(cs[i]) \/ ( /\ Near(cs[i][dim], area[dim] + (IF pv = 0 THEN 0 ELSE (w * cum) \div pv), 3)
                         /\ Near(cs[i][dim + 2], area[dim] + (IF pv = 0 THEN 0 ELSE (w * (cum + vals[i])) \div pv), 3)
                         /\ Near(cs[i][3 - dim], area[3 - dim], 3) /\ Near(cs[i][5 - dim], area[5 - dim], 3))
TreemapKids(s, d, r, pv, all, cs, vals) == \* r: rectangle of the parent, cs: of its shown children
  LET con == Content(s, d, r).c
      area == Grown(s, d + 1, con)
      aw == area[3] - area[1]  ah == area[4] - area[2]
      pre == Map(cs, LAMBDA c : IF Flatten0(c) THEN c ELSE Grown(s, d + 1, c))
      gap == At(s.opt.gap, d + 1) * U
      whole == SumSeq(vals) = pv
      dir == CASE s.opt.split = "dice" -> 1 [] s.opt.split = "slice" -> 2 [] s.opt.split = "sliceDice" -> (IF d % 2 = 1 THEN 2 ELSE 1) [] OTHER -> 0
  IN /\ \A i \in 1..Len(cs) : Inside(cs[i], IF Flatten0(cs[i]) THEN area ELSE con, 3)
     /\ \A i, j \in 1..Len(cs) : (i < j /\ ~Flatten0(cs[i]) /\ ~Flatten0(cs[j])) =>
          LET v == Overlap(cs[i], cs[j]) IN v[1] <= 4 - gap \/ v[2] <= 4 - gap
     /\ (pv > 0 /\ (whole \/ s.opt.split # "binary")) => \A i \in 1..Len(cs) : Flatten0(cs[i]) \/
          LET w == pre[i][3] - pre[i][1]  h == pre[i][4] - pre[i][2] IN
          Near(w * h, (aw * ah * vals[i]) \div Max2(pv, 1), 4 * (w + h) + 4 * (((aw + ah) * vals[i]) \div Max2(pv, 1)) + 30)
     /\ dir # 0 => Stack(s, pv, area, pre, vals, dir)
TreemapOk(s, vis, at, obs) ==
  LET rootKids == Kids(vis, at, 0)
      P(j) == IF Knife(s, vis[j].d, obs[j].g) \/ Flatten0(obs[j].g) THEN TRUE
              ELSE LET ks == Kids(vis, at, j) IN
                   /\ (ks # <<>> => LET l == Content(s, vis[j].d, obs[j].g).l IN
                                    IF l = <<>> THEN obs[j].l = <<>> ELSE obs[j].l # <<>> /\ \A x \in 1..4 : Near(obs[j].l[x], l[x], 2))
                   /\ (ks # <<>> => TreemapKids(s, vis[j].d, obs[j].g, vis[j].v, 0, Map(ks, LAMBDA x : obs[x].g), Map(ks, LAMBDA x : vis[x].v)))
  IN /\ TreemapKids(s, 0 - 1, <<X0(s) * U, Y0(s) * U, X1(s) * U, Y1(s) * U>>, Total(s), 0, Map(rootKids, LAMBDA x : obs[x].g), Map(rootKids, LAMBDA x : vis[x].v))
     /\ \A j \in 1..Len(vis) : P(j)

(* -------------------------------------------------------------- sunburst *)
Pos(p, total) == IF p.p THEN (total * p.v) \div 100 ELSE p.v * U   \* total in 1/20 px
Radii(s) ==
  LET o == s.opt
      max == Min2(W(s), H(s)) * (U \div 2)
      md == Depth(s.tree)
      Gp(i) == IF o.gapr.c THEN o.gapr.v[1] * U ELSE IF i <= Len(o.gapr.v) THEN o.gapr.v[i] * U ELSE 0
      In0(i) == IF i <= Len(o.inn.v) THEN Pos(o.inn.v[i], max) ELSE max
      Out0(i) == IF i <= Len(o.out.v) THEN Pos(o.out.v[i], max) ELSE max
      ir == Pos(o.inn.v[1], max)  or == Pos(o.out.v[1], max)
      n == md + 1
  IN [i \in 1..n |->
       CASE ~o.inn.c -> <<In0(i), IF ~o.out.c THEN Out0(i) ELSE IF i < n THEN In0(i + 1) - Gp(i) ELSE or>>
         [] o.inn.c /\ ~o.out.c -> <<IF i = 1 THEN ir ELSE Out0(i - 1) - Gp(i), Out0(i)>>
         [] OTHER -> <<ir + ((i - 1) * (or - ir)) \div n, ir + (i * (or - ir)) \div n - Gp(i)>>]
LabelAt(s, d) == IF s.opt.label.c THEN s.opt.label.v[1] ELSE IF d + 1 <= Len(s.opt.label.v) THEN s.opt.label.v[d + 1] ELSE [has |-> FALSE, al |-> "", rot |-> "", off |-> 0]
SunLabelOk(s, n, leaf, g, lb) ==
  LET c == LabelAt(s, n.d)
      a == (g[3] + g[4]) \div 2
      r == (CASE c.al = "start" -> g[1] [] c.al = "end" -> g[2] [] OTHER -> (g[1] + g[2]) \div 2) + c.off * U
      f == ModTwoPi(a)
      back == f > 15708 /\ f < 47124
      edge == Near(f, 15708, 5) \/ Near(f, 47124, 5) \/ f < 5 \/ f > TWOPI - 5
      flip == CASE c.al = "start" -> "end" [] c.al = "end" -> "start" [] OTHER -> "center"
  IN IF ~c.has THEN lb = <<>>
     ELSE /\ lb # <<>> /\ Near(lb[1].r, Abs(r), 4)
          /\ (r > 200 => NearAngle(lb[1].a, a, 40))
          /\ IF c.rot = "tangential" THEN NearAngle(lb[1].ang, a - 15708, 6) /\ lb[1].al = "center" /\ (r >= 0 => Near(lb[1].mlw, (((Abs(g[4] - g[3]) \div 10) * r) \div 1000), 30 + r \div 500))
             ELSE edge \/ ( /\ NearAngle(lb[1].ang, IF back THEN a + 31416 ELSE a, 6) /\ lb[1].al = (IF back THEN flip ELSE c.al)
                            /\ IF leaf THEN lb[1].mlw = 0 - 1 ELSE Near(lb[1].mlw, Abs(g[2] - g[1]), 3))
SunOk(s, vis, at, obs) ==
  LET R == Radii(s)
      cx == X0(s) * U + Pos(s.opt.cen[1], W(s) * U)
      cy == Y0(s) * U + Pos(s.opt.cen[2], H(s) * U)
      Sect(j, a0, a1, pv, ks) == \A x \in 1..Len(ks) :
        LET cum == SumSeq(Map(SubSeq(ks, 1, x - 1), LAMBDA y : vis[y].v))  g == obs[ks[x]].g
            F(c) == IF pv = 0 THEN a0 ELSE a0 + ((a1 - a0) * c) \div pv
        IN Near(g[3], F(cum), 4) /\ Near(g[4], F(cum + vis[ks[x]].v), 4)
  IN /\ Sect(0, s.opt.sa, s.opt.ea, Total(s), Kids(vis, at, 0))
     /\ \A j \in 1..Len(vis) : LET g == obs[j].g  rr == R[vis[j].d + 1] IN
          /\ Near(g[1], Min2(rr[1], rr[2]), 3) /\ Near(g[2], Max2(rr[1], rr[2]), 3) /\ Near(g[5], cx, 3) /\ Near(g[6], cy, 3)
          /\ Sect(j, g[3], g[4], vis[j].v, Kids(vis, at, j))
          /\ SunLabelOk(s, vis[j], All(s)[CHOOSE x \in 1..Len(All(s)) : All(s)[x].k = vis[j].k].nc = 0, g, obs[j].lb)

(* ------------------------------------------------------------------ tree *)
Vert(o) == o.dir \in {"vertical", "TB", "BT"}
Cross(o, g) == IF o.lay = "radial" \/ Vert(o) THEN g[1] ELSE g[2]
Main(o, g) == IF o.lay = "radial" \/ Vert(o) THEN g[2] ELSE g[1]
Sep(a, b) == IF a.pk = b.pk THEN 1 ELSE 2
RECURSIVE Height(_, _)
Height(all, j) == LET ks == {x \in 1..Len(all) : all[x].p = j} IN IF ks = {} THEN 0 ELSE 1 + SetMax({Height(all, x) : x \in ks})
RECURSIVE Under(_, _)
Under(all, j) == {j} \cup UNION {Under(all, x) : x \in {y \in 1..Len(all) : all[y].p = j}}
(* the laws of a laid out tree; all nodes are observed (obs is in the order of all) *)
TreeOk(s, all, obs) ==
  LET o == s.opt
      N == 1..Len(all)
      rad == o.lay = "radial"
      lo == IF rad THEN 0 ELSE (IF Vert(o) THEN X0(s) ELSE Y0(s)) * U
      ext == IF rad THEN TWOPI ELSE (IF Vert(o) THEN W(s) ELSE H(s)) * U
      mlo == IF rad THEN 0 ELSE (IF Vert(o) THEN Y0(s) ELSE X0(s)) * U
      mext == IF rad THEN Min2(W(s), H(s)) * (U \div 2) ELSE (IF Vert(o) THEN H(s) ELSE W(s)) * U
      c == [j \in N |-> Cross(o, obs[j].g)]
      m0 == [j \in N |-> Main(o, obs[j].g)]
      m == [j \in N |-> IF ~rad /\ o.dir \in {"BT", "RL"} THEN 2 * mlo + mext - m0[j] ELSE m0[j]]
      md == Depth(s.tree)
      J == IF rad THEN {j \in N : obs[j].g[2] > 2} ELSE N    \* the angle of the centre is not determined
      Ch(j) == Filter([x \in N |-> x], LAMBDA x : all[x].p = j)
      Leaves == Filter([x \in N |-> x], LAMBDA x : all[x].nc = 0)
      hr == Height(all, 1)
      fixed == o.gap >= 0 /\ o.lw >= 0
      Laws(K) ==
        /\ \A a, b \in J : (a < b /\ all[a].d = all[b].d /\ ~\E x \in (a + 1)..(b - 1) : all[x].d = all[a].d) => c[b] - c[a] >= Sep(all[a], all[b]) * K - 6
        /\ \A j \in J : all[j].nc > 0 => LET ks == Ch(j) IN
             IF o.al = "leaf" THEN Near(c[j] * Len(ks), SumSeq(Map(ks, LAMBDA x : c[x])), 3 * Len(ks))
             ELSE Near(2 * c[j], c[ks[1]] + c[ks[Len(ks)]], 6)
        /\ o.al = "leaf" => \A i \in 2..Len(Leaves) : Near(c[Leaves[i]] - c[Leaves[i - 1]], Sep(all[Leaves[i]], all[Leaves[i - 1]]) * K, 6)
        (* subtrees are as close as the separation allows *)
        /\ o.al = "depth" => \A j \in N : all[j].nc >= 2 => LET ks == Ch(j)  l == ks[Len(ks)]  rest == UNION {Under(all, ks[x]) : x \in 1..(Len(ks) - 1)} IN
             \E x \in Under(all, l), y \in rest : all[x].d = all[y].d /\ c[x] - c[y] <= Sep(all[x], all[y]) * K + 6
      lmin == SetMin({c[j] : j \in J})  rmax == SetMax({c[j] : j \in J})
  IN /\ (* along the depth *)
        IF o.al = "leaf" THEN \A j \in N : Near(m[j], mlo + (IF fixed THEN (hr - Height(all, j)) * o.lw * U ELSE IF hr = 0 THEN 0 ELSE ((hr - Height(all, j)) * mext) \div hr), 3)
        ELSE \A j \in N : Near(m[j], mlo + (IF o.lw >= 0 THEN all[j].d * o.lw * U ELSE (all[j].d * mext) \div Max2(md, 1)), 3)
     /\ (* across *)
        IF J = {} THEN TRUE
        ELSE IF fixed THEN Near(c[1], lo + (IF o.al = "leaf" THEN 0 ELSE ext \div 2), 2) /\ Laws(o.gap * U)
        ELSE IF o.gap >= 0 THEN Laws(o.gap * U) /\ \E a, b \in J : Near(c[a], lmin, 2) /\ Near(c[b], rmax, 2) /\ (Near(2 * (lmin - lo), Sep(all[a], all[b]) * o.gap * U, 6) \/ (o.al = "depth" /\ rmax - lmin <= 2 /\ Near(lmin - lo, o.gap * U, 6)))
        ELSE IF rmax - lmin <= 2 THEN rad \/ Near(lmin, lo + ext \div 2, 3)
        ELSE /\ Near(lmin - lo, lo + ext - rmax, 4)
             /\ \E sp \in {Sep(all[a], all[b]) : a \in {x \in J : Near(c[x], lmin, 2)}, b \in {x \in J : Near(c[x], rmax, 2)}} : Laws((2 * (lmin - lo)) \div sp)
LinksOk(s, vis, at, obs, links) ==
  LET kids == Filter([j \in 1..Len(vis) |-> j], LAMBDA j : vis[j].p > 0) IN
  /\ Len(links) = Len(kids)
  /\ \A i \in 1..Len(links) : LET j == kids[i]  p == at[vis[j].p]  l == links[i] IN
       l.s = vis[p].k /\ l.t = vis[j].k /\ l.key = vis[p].k \o "~" \o vis[j].k /\ l.g = obs[p].xy \o obs[j].xy

(* -------------------------------------------------------- circle packing *)
Sq(x) == x * x
D2(a, b) == Sq(a[1] - b[1]) + Sq(a[2] - b[2])
CircleKids(s, d, R, cs) == \* R: circle of the parent or <<>>
  LET pad == At(s.opt.pad, d + 1) * U
      exact == s.opt.rad \/ pad = 0
      p == IF exact THEN pad ELSE 0      \* the padding of a fitted packing is scaled down
      T == 4
  IN /\ \A i, j \in 1..Len(cs) : i < j => D2(cs[i], cs[j]) >= Sq(Max2(0, cs[i][3] + cs[j][3] + p - T))
     /\ Len(cs) >= 2 => \A i \in 1..Len(cs) : \E j \in 1..Len(cs) : i # j /\ D2(cs[i], cs[j]) <= Sq(cs[i][3] + cs[j][3] + pad + T)
     /\ R # <<>> => /\ \A i \in 1..Len(cs) : R[3] - cs[i][3] - p + T >= 0 /\ D2(cs[i], R) <= Sq(R[3] - cs[i][3] - p + T)
                    /\ Cardinality({i \in 1..Len(cs) : R[3] - cs[i][3] - pad - T <= 0 \/ D2(cs[i], R) >= Sq(R[3] - cs[i][3] - pad - T)}) >= Min2(2, Len(cs))
CircleOk(s, vis, at, obs, all, rootg) ==
  LET o == s.opt
      cen == <<X0(s) * U + W(s) * (U \div 2), Y0(s) * U + H(s) * (U \div 2)>>
      root == IF o.rad THEN rootg ELSE <<cen[1], cen[2], Min2(W(s), H(s)) * (U \div 2)>>
      leaves == Filter([j \in 1..Len(vis) |-> j], LAMBDA j : all[CHOOSE x \in 1..Len(all) : all[x].k = vis[j].k].nc = 0)
      big == IF leaves = <<>> THEN 0 ELSE CHOOSE j \in Range(leaves) : \A x \in Range(leaves) : vis[x].v <= vis[j].v
      Cs(ks) == Map(ks, LAMBDA x : obs[x].g)
  IN /\ (o.root => Near(rootg[1], cen[1], 2) /\ Near(rootg[2], cen[2], 2) /\ (~o.rad => Near(rootg[3], root[3], 2)))
     /\ CircleKids(s, 0 - 1, root, Cs(Kids(vis, at, 0)))
     /\ \A j \in 1..Len(vis) : LET ks == Kids(vis, at, j) IN ks # <<>> => CircleKids(s, vis[j].d, obs[j].g, Cs(ks))
     /\ \A j \in Range(leaves) : IF o.rad THEN Near(obs[j].g[3], (2 + vis[j].v) * U, 2)
          ELSE LET a == obs[j].g[3]  b == obs[big].g[3] IN Near(a * a * vis[big].v, b * b * vis[j].v, 3 * (a * vis[big].v + b * vis[j].v) + 50)

(* ------------------------------------------------------------ acceptance *)
NodeOk(s, vis, at, j, x) == \* x: observed
  LET n == vis[j] IN /\ x.k = n.k /\ x.pk = n.pk /\ x.d = n.d /\ x.i = n.i /\ x.fi = n.fi /\ x.v = n.v /\ x.dl = n.d + 1
                     /\ x.md = Depth(s.tree) /\ x.leaf = (Kids(vis, at, j) = <<>>) /\ x.nc = Len(Kids(vis, at, j))
Good(s, e) ==
  LET V == Visible(s, e.obs)  vis == V.list  at == V.at  o == s.opt  all == All(s) IN
  /\ Len(e.obs) = Len(vis)
  /\ \A j \in 1..Len(vis) : NodeOk(s, vis, at, j, e.obs[j])
  /\ CASE o.type = "treemap" -> TreemapOk(s, vis, at, e.obs)
       [] o.type = "sunburst" -> SunOk(s, vis, at, e.obs)
       [] o.type = "tree" -> (Len(vis) = Len(all) => TreeOk(s, all, e.obs)) /\ (o.flat => LinksOk(s, vis, at, e.obs, e.links))
       [] OTHER -> CircleOk(s, vis, at, e.obs, all, e.rootg)
(* the nodes belong to the rows they were made of and the rows are left alone *)
RECURSIVE Names(_)
Names(ns) == Concat(Map(ns, LAMBDA n : <<n.k>> \o Names(n.c)))
Rows(s, e) == LET nm == Names(s.tree) IN e.same /\ \A j \in 1..Len(e.obs) : e.names[j] = nm[e.obs[j].fi + 1]
HierAccept(s, e) == e.op # "threw" /\ (e.op = "run" => Good(s, e) /\ Rows(s, e))
HierExplain(s, e) == IF e.op # "run" THEN [op |-> e.op] ELSE
  LET V == Visible(s, e.obs)  vis == V.list IN
  [shown |-> Map(vis, LAMBDA x : x), nodes |-> IF Len(vis) # Len(e.obs) THEN <<>> ELSE [j \in 1..Len(vis) |-> NodeOk(s, vis, V.at, j, e.obs[j])]]
HierInv(s) == \A n \in Range(All(s)) : n.v >= 0
==============================================================================
