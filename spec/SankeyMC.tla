------------------------------ MODULE SankeyMC ------------------------------
(* Bounded model: histories of data, options and boxes.  A layout computed from the laws is accepted (the laws can be   *)
(* satisfied together), none is once a node, a link end or a value has been displaced; source of behaviours.           *)
EXTENDS Sankey, Json, CSV, IOUtils
CONSTANTS MaxRuns, MaxOps, Kinds, Small, Emit
VARIABLES st, hist, n, k
L0(s, t, v) == [s |-> s, t |-> t, v |-> v]
N0(nm, v) == [k |-> nm, v |-> v, c |-> <<>>]
P0(nm, v, c) == [k |-> nm, v |-> v, c |-> c]
DL(ls) == [t |-> "links", nodes |-> <<>>, links |-> ls, tree |-> <<>>]
DN(ns, ls) == [t |-> "nodes", nodes |-> ns, links |-> ls, tree |-> <<>>]
DT(tr) == [t |-> "tree", nodes |-> <<>>, links |-> <<>>, tree |-> tr]
NV(kk, v) == [k |-> kk, v |-> v]
Datas(t) ==
  CASE t = "links" -> {DL(<<L0("n0", "n1", 3)>>), DL(<<L0("n0", "n1", 4), L0("n0", "n2", 2), L0("n1", "n3", 3), L0("n2", "n3", 2), L0("n0", "n3", 1)>>),
                       DL(<<L0("n2", "n3", 5), L0("n1", "n2", 1), L0("n0", "n2", 3), L0("n0", "n3", 2), L0("n4", "n3", 6)>>)}
    [] t = "nodes" -> {DN(<<NV("n0", 7), NV("n1", 0 - 1), NV("n2", 0 - 1)>>, <<L0("n0", "n1", 3), L0("n1", "n2", 2)>>),
                       DN(<<NV("n0", 0 - 1), NV("n1", 9), NV("n2", 0 - 1), NV("n3", 4), NV("n4", 2)>>, <<L0("n1", "n0", 3), L0("n0", "n3", 4), L0("n2", "n3", 1), L0("n2", "zz", 1), L0("n1", "n3", 2)>>),
                       DN(<<NV("n0", 12), NV("n1", 0 - 1), NV("n2", 0 - 1)>>, <<L0("n0", "n1", 0 - 1), L0("n0", "n2", 0 - 1), L0("n0", "n2", 2)>>)}
    [] OTHER -> {DT(<<P0("a", 0 - 1, <<N0("c", 3), P0("d", 0 - 1, <<N0("e", 2), N0("f", 1)>>)>>), P0("b", 9, <<N0("c", 2), N0("d", 4)>>)>>)}
NoF == [t |-> "none", v |-> 0, tab |-> <<>>]
Px(v) == [t |-> "px", v |-> v, tab |-> <<>>]
Fn(a, b) == [t |-> "fn", v |-> 0, tab |-> <<a, b>>]
O0(t) == [align |-> "justify", vert |-> FALSE, inv |-> FALSE, cross |-> "middle", gap |-> 8, gapfn |-> <<>>, gappos |-> "middle", nw |-> Px(10), lw |-> NoF, minstep |-> 0 - 1,
          equal |-> FALSE, nh |-> NoF, lh |-> NoF, minn |-> 0 - 1, maxn |-> 0 - 1, minl |-> 0 - 1, maxl |-> 0 - 1, iter |-> 0, sort |-> "none", lsort |-> "none", over |-> "none",
          divide |-> TRUE, drop |-> TRUE, key |-> t # "links", haslay |-> FALSE, lay |-> <<>>]
Layers == <<[k |-> "n0", d |-> 0], [k |-> "n1", d |-> 1], [k |-> "n2", d |-> 3]>>
Ups(t) == {o \in {[O0(t) EXCEPT !.align = a, !.vert = v, !.inv = i, !.cross = c] : a \in {"left", "right", "center", "justify"}, v \in BOOLEAN, i \in BOOLEAN, c \in {"start", "end", "middle", "parent"}} : TRUE}
  \cup {[O0(t) EXCEPT !.gap = g, !.gapfn = gf, !.gappos = p, !.minn = m, !.cross = c] : g \in {8, 40}, gf \in {<<>>, <<3, 1>>}, p \in {"middle", "start", "end"}, m \in {0 - 1, 12}, c \in {"middle", "parent"}}
  \cup {[O0(t) EXCEPT !.nw = w, !.lw = l, !.minstep = q, !.inv = i] : w \in {Px(24), [t |-> "pct", v |-> 25, tab |-> <<>>], Fn(4, 9)}, l \in {Px(7)}, q \in {0 - 1, 30}, i \in BOOLEAN}
  \cup {[O0(t) EXCEPT !.nw = [t |-> "pct", v |-> 40, tab |-> <<>>], !.minn = m, !.maxn = x, !.minl = y, !.maxl = z, !.equal = q] : m \in {0 - 1, 6}, x \in {0 - 1, 14}, y \in {0 - 1, 3}, z \in {0 - 1, 5}, q \in BOOLEAN}
  \cup {[O0(t) EXCEPT !.nh = h, !.lh = l, !.over = v, !.iter = i] : h \in {NoF, Px(6), Fn(5, 9)}, l \in {NoF, Px(4), Fn(1, 3)}, v \in {"none", "start", "center", "end"}, i \in {0, 6}}
  \cup {[O0(t) EXCEPT !.sort = a, !.lsort = l, !.drop = d, !.iter = i, !.divide = FALSE] : a \in {"none", "asc", "desc"}, l \in {"none", "asc", "desc"}, d \in BOOLEAN, i \in {0, 6}}
  \cup (IF t = "nodes" THEN {[O0(t) EXCEPT !.haslay = TRUE, !.lay = Layers, !.cross = c, !.sort = a] : c \in {"start", "middle", "parent"}, a \in {"none", "asc"}} ELSE {})
Big(t) == CHOOSE d \in Datas(t) : t = "tree" \/ Len(d.links) = 5 \/ (t = "nodes" /\ Len(d.nodes) = 5)
Boxes == {<<0, 0, 60, 40>>, <<10, 20, 70, 50>>}
(* a layout read off the laws (without relaxation; columns in the order of the layers) *)
RECURSIVE RefCols(_, _, _, _)
RefCols(s, f, i, y0) == IF i = f.md THEN y0
  ELSE LET c == Column(s, f, i) IN
       IF c = <<>> THEN RefCols(s, f, i + 1, y0)
       ELSE LET y == CHOOSE a \in Aligned(s, f, c, i, y0) : TRUE IN RefCols(s, f, i + 1, y0 @@ [kk \in {c[j].k : j \in 1..Len(c)} |-> y[CHOOSE j \in 1..Len(c) : c[j].k = kk]])
UnBase(s, q) == LET a == IF s.opt.inv THEN <<B0(s) + B1(s) - q[2], B0(s) + B1(s) - q[1], q[3], q[4]>> ELSE q IN IF Vert(s) THEN <<a[3], a[4], a[1], a[2]>> ELSE a
UnL(s, q) == LET a == IF s.opt.inv THEN <<B0(s) + B1(s) - q[1], q[2], B0(s) + B1(s) - q[3], q[4]>> ELSE q IN IF Vert(s) THEN <<a[2], a[1], a[4], a[3]>> ELSE a
Ref(s) ==
  LET f == Full(s)  y0 == RefCols(s, f, 0, [kk \in {} |-> 0])
      q(x) == LET xw == XW(s, f, x) IN <<xw[1], xw[1] + xw[2], y0[x.k], y0[x.k] + Hgt(s, f, x)>>
      ord(ls, end(_)) == IF s.opt.lsort # "none" THEN ByV(s.opt, ls) ELSE StableSort(ls, LAMBDA a, b : y0[end(a)] < y0[end(b)])
      src(x) == IF s.opt.lsort # "none" THEN ByV(s.opt, Outs(f, x.k)) ELSE Outs(f, x.k)
      tgt(x) == ord(Ins(f, x.k), LAMBDA l : l.s)
      th(l) == Thick(s, f, l)
      so(l) == LET x == NodeOf(f, l.s) IN Side(s, f, q(x), Map(src(x), th))[Index(src(x), l)]
      ti(l) == LET x == NodeOf(f, l.t) IN Side(s, f, q(x), Map(tgt(x), th))[Index(tgt(x), l)]
      I(ls) == Map(ls, LAMBDA l : l.i)
      Shaped(o) == LET rs == {x.r : x \in Range(o.nodes)}  a == SetMin({r[1] : r \in rs})  b == SetMax({r[2] : r \in rs})  c == SetMin({r[3] : r \in rs})  d == SetMax({r[4] : r \in rs}) IN
        [fr |-> Map(o.nodes, LAMBDA x : <<x.r[1], x.r[3], x.r[2] - x.r[1], x.r[4] - x.r[3]>>), pg |-> Map(o.links, LAMBDA l : Ribbon(s, l, FALSE)), pt |-> Map(o.links, LAMBDA l : Ribbon(s, l, TRUE)),
         pr |-> Map(o.links, LAMBDA l : Map(Ribbon(s, l, TRUE), LAMBDA v : RoundDiv(v, U))), bd |-> <<a, b, c, d, b - a, d - c>>] @@ o
  IN Shaped([op |-> "run", nul |-> f.nodes = <<>>, cols |-> Map(Cols(s, f), LAMBDA c : Map(c, LAMBDA x : x.k)),
      nodes |-> Map(f.nodes, LAMBDA x : [k |-> x.k, v |-> x.v, d |-> x.d, ly |-> x.ly, last |-> x.ly = f.md - 1, dt |-> x.dt, r |-> UnBase(s, q(x)), src |-> I(src(x)), tgt |-> I(tgt(x))]),
      links |-> Map(f.links, LAMBDA l : [s |-> l.s, t |-> l.t, v |-> l.v, i |-> l.i, n |-> l.n, par |-> l.par, ver |-> Vert(s), th |-> th(l),
                 sr |-> UnBase(s, q(NodeOf(f, l.s))), tr |-> UnBase(s, q(NodeOf(f, l.t))), p |-> UnL(s, <<q(NodeOf(f, l.s))[2], so(l), q(NodeOf(f, l.t))[1], ti(l)>>)])])
Plain(s) == LET f == Full(s) IN ~Relaxed(s) /\ f.nodes # <<>> /\ InScope(s, f)
Sound == Plain(st) => (Good(st, Ref(st)) \/ PrintT(SankeyExplain(st, Ref(st))) = FALSE)
Tight == (~Emit /\ Plain(st)) => LET e == Ref(st) IN
  /\ \A j \in 1..Len(e.nodes), x \in 1..4 : ~Good(st, [e EXCEPT !.nodes[j].r[x] = @ + 3 * T])
  /\ \A j \in 1..Len(e.links), x \in 1..4 : ~Good(st, [e EXCEPT !.links[j].p[x] = @ - 3 * T])
  /\ \A j \in 1..Len(e.nodes) : ~Good(st, [e EXCEPT !.nodes[j].v = @ + 1]) /\ ~Good(st, [e EXCEPT !.nodes[j].ly = @ + 1])
(* nothing lies outside the box unless the extents are given by the user *)
Fits == Plain(st) => LET f == Full(st)  e == Ref(st)  o == st.opt IN
  (o.cross # "parent" /\ o.nw.t # "fn" /\ o.lw.t = "none" /\ o.minstep < 0 /\ ~o.haslay /\ o.nw.v * f.md <= 60 /\ o.gapfn = <<>> /\ o.nh.t = "none" /\ o.minn < 0 /\ o.minl < 0 /\ o.gappos = "middle") =>
    \A x \in Range(e.nodes) : LET q == Base(st, x.r) IN q[1] >= B0(st) - T /\ q[2] <= B1(st) + T /\ q[3] >= C0(st) - T /\ q[4] <= C1(st) + T
SankeyIn == SankeyInv(st)
Init == \E t \in Kinds : \E d \in {x \in Datas(t) : Small => x = Big(t)}, o \in Ups(t), b \in (IF Small THEN {<<10, 20, 70, 50>>} ELSE Boxes) :
          LET c == [data |-> d, opt |-> o, box |-> b, corners |-> TRUE] IN st = Sankey0(c) /\ hist = <<[op |-> "reset", cfg |-> c]>> /\ n = 0 /\ k = 0
Add(e) == hist' = IF Emit THEN Append(hist, e) ELSE <<e>>
Change == /\ k < MaxOps /\ n < MaxRuns /\ (Emit => n > 0)
          /\ \E e \in {[op |-> "data", data |-> t] : t \in Datas(st.data.t)} \cup {[op |-> "box", box |-> b] : b \in Boxes} \cup {[op |-> "opt", opt |-> o] : o \in Ups(st.data.t)} :
               st' = SankeyStep(st, e) /\ st' # st /\ Add(e) /\ k' = k + 1 /\ UNCHANGED n
Run == n < MaxRuns /\ (n > 0 => k > 0) /\ n' = n + 1 /\ k' = 0 /\ UNCHANGED st /\ Add([op |-> "run"])
Next == Run \/ Change
Spec == Init /\ [][Next]_<<st, hist, n, k>>
View == st
EmitAll == (n' = MaxRuns /\ n' > n) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
==============================================================================
