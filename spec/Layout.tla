------------------------------- MODULE Layout -------------------------------
(* Sizing of a view and its default layout.  Width, height and padding of    *)
(* the canvas determine the view box; a layout container gives each of its   *)
(* children a box (cells of a grid, or sides of the remaining content) and   *)
(* may make what remains the view box.  Lengths are in 1/1000.               *)
(* Paddings are <<top, right, bottom, left>>, boxes <<x1, y1, x2, y2>>.      *)
EXTENDS Util
K == 1000
ThemePad == <<5000, 5000, 5000, 5000>>
Zero4 == <<0, 0, 0, 0>>
Mil4(p) == [i \in 1..4 |-> p[i] * K]
Or(a, b) == IF a # <<>> THEN a ELSE b            (* options are <<>> or <<value>> *)

(* ---- padding: of the specification, else of the view, else of the theme (theme: <<>> the default one, <<pads>> with pads an option) *)
PadOfTheme(th) == IF th = <<>> THEN <<ThemePad>> ELSE Map(th[1], Mil4)
PadOf(spec, opts, th) == LET p == Or(Map(spec.pad, Mil4), Or(Map(opts.pad, Mil4), PadOfTheme(th))) IN IF p = <<>> THEN Zero4 ELSE p[1]

(* ---- boxes *)
BW(b) == b[3] - b[1]
BH(b) == b[4] - b[2]
HullOf(bs) == IF bs = <<>> THEN <<>> ELSE <<SetMin({b[1] : b \in Range(bs)}), SetMin({b[2] : b \in Range(bs)}), SetMax({b[3] : b \in Range(bs)}), SetMax({b[4] : b \in Range(bs)})>>
RectBox(r) == <<r[1] * K, r[2] * K, (r[1] + r[3]) * K, (r[2] + r[4]) * K>>
Extent(kid) == HullOf(Map(kid.rects, RectBox))
Meet(a, b) == <<Max2(a[1], b[1]), Max2(a[2], b[2]), Min2(a[3], b[3]), Min2(a[4], b[4])>>

(* ---- grid: tracks are numbers, percentages or share what is left; every track is followed by the gap *)
TrackSize(t, total) == CASE t.t = "n" -> t.v * K [] t.t = "p" -> (t.v * total) \div 100 [] t.t = "all" -> total [] OTHER -> 0
Lines(ts, gap, total) ==
  LET fixed == Map(ts, LAMBDA t : TrackSize(t, total))
      autos == Len(Filter(ts, LAMBDA t : t.t = "auto"))
      left == Max2(0, total - SumSeq(fixed) - Len(ts) * gap)
      size == [i \in 1..Len(ts) |-> IF ts[i].t = "auto" THEN left \div autos ELSE fixed[i]]
  IN [i \in 1..(Len(ts) + 1) |-> SumSeq(SubSeq(size, 1, i - 1)) + (i - 1) * gap]
(* lines are counted from 1, or from the end when negative; a missing one is next to the other one *)
LineNo(i, cnt) == Min2(IF i < 0 THEN i + cnt + 1 ELSE i, cnt)
Span(s, e, cnt) ==
  LET a == IF s # <<>> THEN LineNo(s[1], cnt) ELSE IF e # <<>> THEN Max2(1, LineNo(e[1], cnt) - 1) ELSE 1
      b == IF e # <<>> THEN LineNo(e[1], cnt) ELSE IF s # <<>> THEN Min2(a + 1, cnt) ELSE 2
  IN <<Min2(a, b), Max2(a, b)>>
Tracks(ts) == IF ts = <<>> THEN <<[t |-> "all"]>> ELSE ts
Cell(lay, w, h, it) ==
  LET cl == Lines(Tracks(lay.cols), lay.cg * K, w)
      rl == Lines(Tracks(lay.rows), lay.rg * K, h)
      c == Span(it.cs, it.ce, Len(cl))
      r == Span(it.rs, it.re, Len(rl))
  IN <<cl[c[1]], rl[r[1]], cl[c[2]] - lay.cg * K, rl[r[2]] - lay.rg * K>>

(* ---- relative: children take room at the sides, the rest is the content *)
Pct(x, total) == IF x = <<>> THEN total ELSE IF x[1] = "p" THEN (total * x[2]) \div 100 ELSE x[2] * K
P4(lay) == Mil4(lay.pad)
Need(kid, par, lay) ==
  LET b == Extent(kid)
      w == IF b = <<>> THEN 0 ELSE BW(b)
      h == IF b = <<>> THEN 0 ELSE BH(b)
  IN [w |-> w + P4(kid.lay)[4] + P4(kid.lay)[2], h |-> h + P4(kid.lay)[1] + P4(kid.lay)[3],
      tw |-> Min2(w + P4(kid.lay)[4] + P4(kid.lay)[2], Pct(lay.mw, BW(par))), th |-> Min2(h + P4(kid.lay)[1] + P4(kid.lay)[3], Pct(lay.mh, BH(par))),
      ov |-> IF b = <<>> THEN Zero4 ELSE <<Max2(0, par[2] - b[2]), Max2(0, b[3] - par[3]), Max2(0, b[4] - par[4]), Max2(0, par[1] - b[1])>>]
At(kids, p) == Filter(kids, LAMBDA kid : kid.lay.pos = p)
Content(par, lay, kids) ==
  LET N(kid) == Need(kid, par, lay)
      H(p) == SumSeq(Map(At(kids, p), LAMBDA kid : N(kid).th))
      W(p) == SumSeq(Map(At(kids, p), LAMBDA kid : N(kid).tw))
      Out(i) == SumSeq(Map(At(kids, "outside"), LAMBDA kid : N(kid).ov[i] + P4(kid.lay)[i]))
      (* children along one side that reach beyond the container sideways push the content in *)
      Most(ps, i) == SetMax({0} \cup {N(kid).ov[i] : kid \in {k \in Range(kids) : k.lay.pos \in ps}})
      t == H("top") + Out(1)
      r == W("right") + Out(2)
      b == H("bottom") + Out(3)
      l == W("left") + Out(4)
      Push(room, need, total) == IF need > room /\ need < total THEN need ELSE room
  IN <<par[1] + Push(l, Most({"top", "bottom"}, 4), BW(par)), par[2] + Push(t, Most({"left", "right"}, 1), BH(par)),
       par[3] - Push(r, Most({"top", "bottom"}, 2), BW(par)), par[4] - Push(b, Most({"left", "right"}, 3), BH(par))>>
OrderOf(kid) == IF kid.lay.order = <<>> THEN 100000 ELSE kid.lay.order[1]
Aligned(lo, hi, need, al, names) ==
  IF need >= hi - lo \/ al \notin Range(names) THEN <<lo, hi>>
  ELSE CASE al = names[1] -> <<lo, lo + need>> [] al = names[2] -> <<(lo + hi) \div 2 - need \div 2, (lo + hi) \div 2 - need \div 2 + need>> [] OTHER -> <<hi - need, hi>>
(* cursors <<x1, y1, x2, y2>> run outwards from the content *)
PlaceOne(acc, kid, par, lay, c) ==
  LET n == Need(kid, par, lay)
      p == kid.lay.pos
      u == acc.cur
      xs == Aligned(c[1], c[3], n.w, kid.lay.align, <<"left", "center", "right">>)
      ys == Aligned(c[2], c[4], n.h, kid.lay.align, <<"top", "middle", "bottom">>)
      box == CASE p = "top" -> <<xs[1], u[2] - n.th, xs[2], u[2]>> [] p = "bottom" -> <<xs[1], u[4], xs[2], u[4] + n.th>>
               [] p = "left" -> <<u[1] - n.tw, ys[1], u[1], ys[2]>> [] p = "right" -> <<u[3], ys[1], u[3] + n.tw, ys[2]>>
               [] OTHER -> c
      off == <<box[1] - c[1], box[2] - c[2]>>
      cur == CASE p = "top" -> [u EXCEPT ![2] = box[2]] [] p = "bottom" -> [u EXCEPT ![4] = box[4]] [] p = "left" -> [u EXCEPT ![1] = box[1]] [] p = "right" -> [u EXCEPT ![3] = box[3]]
               [] p = "outside" -> LET q(i) == n.ov[i] + P4(kid.lay)[i] IN <<u[1] - q(4), u[2] - q(1), u[3] + q(2), u[4] + q(3)>>
               [] OTHER -> u
  IN [cur |-> cur, out |-> Append(acc.out, IF p = "outside" THEN kid ELSE [kid EXCEPT !.box = <<box>>, !.room = <<c>>, !.off = IF p \in {"top", "bottom", "left", "right"} THEN <<[p |-> p, at |-> off]>> ELSE @])]
Relative(par, lay, kids) ==
  LET c == Content(par, lay, kids)
      sorted == StableSort(kids, LAMBDA a, b : OrderOf(a) < OrderOf(b))
      placed == Fold(LAMBDA acc, kid : PlaceOne(acc, kid, par, lay, c), [cur |-> c, out |-> <<>>], sorted).out
  IN [content |-> c, kids |-> Map(kids, LAMBDA kid : Filter(placed, LAMBDA q : q.id = kid.id)[1])]

(* a child may be a grid itself: it divides the box it was given *)
Inner(kid) == IF kid.sub = <<>> THEN kid
  ELSE LET b == IF kid.box # <<>> THEN kid.box[1] ELSE Extent(kid)
       IN [kid EXCEPT !.sub = <<[lay |-> @[1].lay, cells |-> Map(@[1].cells, LAMBDA it : [it EXCEPT !.box = <<Cell(kid.sub[1].lay, BW(b), BH(b), it)>>])]>>]

(* ---- the view *)
Viewport(w, h, p) == <<p[4], p[1], w - p[2], h - p[3]>>
Eval(st) == [st EXCEPT !.vb = <<Viewport(st.w, st.h, st.pad)>>, !.root = <<st.w, st.h>>]
Par(st) ==
  LET g == st.g
      own == IF g.size = <<>> THEN <<0, 0, st.w, st.h>> ELSE <<0, 0, g.size[1] * K, g.size[2] * K>>
      all == Filter(Map(g.kids, Extent), LAMBDA b : b # <<>>)
  IN IF g.clip THEN own ELSE HullOf(<<own>> \o all)
Layouted(st) ==
  IF st.g = <<>> \/ ~st.lay THEN [st EXCEPT !.lay = FALSE]
  ELSE LET s == [st EXCEPT !.lay = FALSE]
           g == s.g
           l == g.lay
       IN IF l.d = "grid"
          THEN LET b == Par(s) IN [s EXCEPT !.g.kids = Map(g.kids, LAMBDA kid : Inner([kid EXCEPT !.box = <<Cell(l, BW(b), BH(b), kid.lay)>>]))]
          ELSE LET b == IF l.upd THEN Meet(Par(s), Viewport(s.w, s.h, s.base)) ELSE Par(s)
                   r == Relative(b, l, g.kids)
                   s1 == [s EXCEPT !.g.kids = Map(r.kids, Inner)]
               IN IF l.upd THEN Eval([s1 EXCEPT !.pad = <<r.content[2], s.w - r.content[3], s.h - r.content[4], r.content[1]>>]) ELSE s1
Resized(st) == [st EXCEPT !.canvas = <<st.w, st.h>>]
Run(st) == Resized(Layouted(Eval(st)))
SetPad(st, p) == [st EXCEPT !.pad = p, !.base = p]
FreshKid(kid) == [id |-> kid.id, lay |-> kid.lay, rects |-> kid.rects, box |-> <<>>, room |-> <<>>, off |-> <<>>,
                  sub |-> Map(kid.sub, LAMBDA s : [lay |-> s.lay, cells |-> Map(s.cells, LAMBDA c : c @@ [box |-> <<>>])])]
Tree(g) == IF g = <<>> THEN <<>> ELSE [clip |-> g.clip, size |-> g.size, lay |-> g.lay, kids |-> Map(g.kids, FreshKid)]

Layout0(cfg) ==
  LET p == PadOf([pad |-> <<>>], cfg.opts, <<>>)
  IN [opts |-> cfg.opts, spec |-> [pad |-> <<>>], w |-> cfg.opts.w * K, h |-> cfg.opts.h * K, pad |-> p, base |-> p, vb |-> <<>>, root |-> <<>>,
      canvas |-> <<cfg.opts.w * K, cfg.opts.h * K>>, lay |-> TRUE, g |-> <<>>]
Kid(st, i, F(_)) == [st EXCEPT !.g.kids = Map(@, LAMBDA kid : IF kid.id = i THEN F(kid) ELSE kid)]
LayoutStep(st, e) ==
  CASE e.op = "w" -> [st EXCEPT !.w = e.v * K]
    [] e.op = "h" -> [st EXCEPT !.h = e.v * K]
    [] e.op = "vw" -> [st EXCEPT !.w = e.v * K + st.pad[4] + st.pad[2]]
    [] e.op = "vh" -> [st EXCEPT !.h = e.v * K + st.pad[1] + st.pad[3]]
    [] e.op = "pad" -> SetPad(st, Mil4(e.p))
    [] e.op = "theme" -> SetPad(st, PadOf(st.spec, st.opts, e.theme))
    [] e.op = "ctheme" -> LET s == SetPad(st, PadOf(st.spec, st.opts, e.theme)) IN IF e.render THEN Run(s) ELSE Eval(s)
    [] e.op = "resize" -> LET s == [st EXCEPT !.w = e.w * K, !.h = e.h * K]
                          IN IF s = st THEN st ELSE IF e.render THEN Run(s) ELSE Eval(s)
    [] e.op = "spec" -> LET s1 == SetPad([st EXCEPT !.spec = e.spec], PadOf(e.spec, st.opts, e.spec.theme))
                        IN [s1 EXCEPT !.w = IF e.spec.w # <<>> THEN e.spec.w[1] * K ELSE @, !.h = IF e.spec.h # <<>> THEN e.spec.h[1] * K ELSE @,
                                      !.lay = TRUE, !.g = Tree(e.spec.g)]
    [] e.op = "tag" -> [st EXCEPT !.lay = TRUE]
    [] e.op = "cont" -> [st EXCEPT !.g.lay = e.lay]
    [] e.op = "item" -> Kid(st, e.id, LAMBDA kid : [kid EXCEPT !.lay = e.lay])
    [] e.op = "rects" -> Kid(st, e.id, LAMBDA kid : [kid EXCEPT !.rects = e.rects])
    [] e.op = "add" -> [st EXCEPT !.g.kids = Append(@, FreshKid(e.kid))]
    [] e.op = "rm" -> [st EXCEPT !.g.kids = Filter(@, LAMBDA kid : kid.id # e.id)]
    [] e.op = "run" -> Run(st)
    [] OTHER -> st

Near(a, b) == Abs(a - b) <= 4
NearS(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Near(p[i], q[i])
NearO(p, q) == Len(p) = Len(q) /\ (p # <<>> => NearS(p[1], q[1]))
(* offset of a child from the content: the coordinate it is placed by is always known *)
OffOk(kid, o) == \/ kid.off = <<>>
                 \/ /\ (kid.off[1].p \in {"top", "bottom"} => Near(o[2], kid.off[1].at[2]))
                    /\ (kid.off[1].p \in {"left", "right"} => Near(o[1], kid.off[1].at[1]))
(* what is laid out in less than no room is not judged *)
Sane(b) == b = <<>> \/ (b[1][1] <= b[1][3] /\ b[1][2] <= b[1][4])
KidOk(kid, o) == \/ ~Sane(kid.box) \/ ~Sane(kid.room)
              \/ /\ o.id = kid.id /\ NearO(o.box, kid.box)
                 /\ (kid.box = <<>> \/ Len(o.off) # 2 \/ OffOk(kid, o.off))
                 /\ (kid.sub # <<>> => /\ Len(o.cells) = Len(kid.sub[1].cells)
                                       /\ \A i \in 1..Len(o.cells) : ~Sane(kid.sub[1].cells[i].box) \/ NearO(o.cells[i], kid.sub[1].cells[i].box))
LayoutAccept(st0, e) ==
  LET st == LayoutStep(st0, e)
      o == e.obs IN
  /\ ~Has(o, "threw")
  /\ o.w = st.w /\ o.h = st.h /\ NearS(o.pad, st.pad)
  /\ o.canvas = st.canvas
  /\ o.resized = (IF st.canvas # st0.canvas THEN <<st.canvas>> ELSE <<>>)
  (* what is computed from them is up to date whenever the view is *)
  /\ (st.vb # <<>> => /\ NearS(o.vb, st.vb[1]) /\ NearS(o.vs, <<BW(st.vb[1]), BH(st.vb[1])>>) /\ NearS(o.root, st.root))
  /\ (e.op = "run" => NearS(o.mark, st.vb[1]))
  /\ (st.g # <<>> => /\ Len(o.kids) = Len(st.g.kids) /\ \A i \in 1..Len(o.kids) : KidOk(st.g.kids[i], o.kids[i]))
LayoutExplain(st0, e) ==
  LET st == LayoutStep(st0, e) IN [w |-> st.w, h |-> st.h, pad |-> st.pad, base |-> st.base, canvas |-> st.canvas, vb |-> st.vb, kids |-> IF st.g = <<>> THEN <<>> ELSE Map(st.g.kids, LAMBDA kid : <<kid.id, kid.box, kid.off, kid.sub>>)]
(* a view that was run and not changed since shows its padding around its view box, and laying it out again changes nothing *)
LayoutInv(st) == /\ \A i \in 1..Len(st.pad) : st.pad[i] \in Int
                 /\ (st.g # <<>> /\ ~st.lay) => LET s == Run(st) IN Run([s EXCEPT !.lay = TRUE]) = Run([Run([s EXCEPT !.lay = TRUE]) EXCEPT !.lay = TRUE])
==============================================================================
