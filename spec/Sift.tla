-------------------------------- MODULE Sift --------------------------------
(* Filter interactions: legends, sliders, data zooms, scrollbars, players, drill-downs and roll-ups restrict the rows   *)
(* of a data set.  State: the rows given by the user, the bound filters with the value each was last given.  What marks *)
(* show is always the composition of the bound filters, by kind, over those rows.                                       *)
EXTENDS Util
NoVal == [has |-> FALSE, lo |-> 0, hi |-> 0, set |-> <<>>, row |-> [k |-> "", v |-> 0, c |-> ""]]
Sift0(cfg) == [d |-> cfg.d, linked |-> cfg.linked, dx |-> cfg.dx, ps |-> cfg.ps, fs |-> <<>>]
TypeOf(c) == CASE c \in {"legend", "color"} -> "legend-filter" [] c \in {"slider", "slider2"} -> "slider-filter" [] c = "zoom" -> "datazoom-filter"
               [] c = "scroll" -> "scrollbar-filter" [] c = "player" -> "player-filter" [] c = "drill" -> "drill-down" [] OTHER -> "roll-up"
Rank(c) == CASE c = "player" -> 1 [] c = "up" -> 2 [] c = "drill" -> 3 [] c \in {"slider", "slider2"} -> 4 [] c = "zoom" -> 5 [] c \in {"legend", "color"} -> 6 [] OTHER -> 7
Gone(f, e) == CASE e.how = "id" -> f.id = e.id [] e.how = "type" -> TypeOf(f.comp) = e.type [] OTHER -> TRUE
(* the value an event gives to a filter; rolling up the same row again takes it back *)
NewVal(s, f, e) ==
  LET v == [has |-> TRUE, lo |-> e.lo, hi |-> e.hi, set |-> e.set, row |-> e.row] IN
  IF f.comp = "up" /\ ((f.off /\ e.ev = "off") \/ (~f.off /\ e.ev = "on" /\ f.val.has /\ f.val.row = e.row)) THEN NoVal
  ELSE IF e.ev = "off" THEN f.val ELSE v
SiftStep(s, e) ==
  CASE e.op = "add" -> [s EXCEPT !.fs = Append(@, [id |-> e.id, comp |-> e.comp, on |-> e.on, mode |-> e.mode, off |-> e.off, val |-> NoVal])]
    [] e.op = "rem" -> [s EXCEPT !.fs = Filter(@, LAMBDA f : ~Gone(f, e))]
    [] e.op = "fire" -> [s EXCEPT !.fs = Map(@, LAMBDA f : IF f.comp = e.comp THEN [f EXCEPT !.val = NewVal(s, f, e)] ELSE f)]
    [] e.op = "data" -> [s EXCEPT !.d[e.k] = e.v]
    [] e.op = "scale" -> [s EXCEPT !.dx = e.v]
    [] OTHER -> s
First(rows, n) == IF Len(rows) <= n THEN rows ELSE SubSeq(rows, 1, n)
(* does a row pass the predicate of a filter? *)
Pass(s, f, r) ==
  LET q == f.val IN
  CASE f.comp = "legend" -> r.c \in Range(q.set)
    [] f.comp \in {"color", "slider", "slider2"} -> q.lo <= r.v /\ r.v <= q.hi
    [] f.comp \in {"zoom", "scroll"} -> q.lo * s.dx <= 8 * r.v /\ 8 * r.v <= q.hi * s.dx
    [] OTHER -> TRUE
Apply(s, f, rows) ==
  IF ~f.val.has THEN rows
  ELSE CASE f.comp = "player" -> IF f.mode = "rows" THEN s.ps[f.val.lo + 1] ELSE Filter(rows, LAMBDA r : r.v <= 4 * f.val.lo + 2)
         [] f.comp \in {"drill", "up"} -> IF f.mode = "rows" THEN <<f.val.row>> ELSE Filter(rows, LAMBDA r : r.c = f.val.row.c)
         [] OTHER -> LET kept == IF f.mode = "first" THEN rows ELSE Filter(rows, LAMBDA r : Pass(s, f, r)) IN
                     IF f.mode \in {"first", "both"} THEN First(kept, 2) ELSE kept
(* the filters of a data set, by kind and then by age *)
Chain(s, on) == StableSort(Filter(s.fs, LAMBDA f : f.on = on), LAMBDA a, b : Rank(a.comp) < Rank(b.comp))
Sifted(s, on, rows) == Fold(LAMBDA acc, f : Apply(s, f, acc), rows, Chain(s, on))
ShownD(s) == Sifted(s, "D", s.d["D"])
ShownE(s) == Sifted(s, "E", IF s.linked THEN ShownD(s) ELSE s.d["E"])
Keys(rows) == Map(rows, LAMBDA r : r.k)
Bad(s, e) == (IF e.D = Keys(ShownD(s)) THEN {} ELSE {"D"}) \cup (IF e.E = Keys(ShownE(s)) THEN {} ELSE {"E"})
SiftAccept(s, e) ==
  CASE e.op \in {"fire", "run"} -> Bad(SiftStep(s, e), e) = {}
    [] OTHER -> e.op \in {"reset", "add", "rem", "data", "scale"}
SiftExplain(s, e) ==
  IF e.op \in {"fire", "run"} THEN LET t == SiftStep(s, e) IN [wrong |-> Bad(t, e), want |-> <<Keys(ShownD(t)), Keys(ShownE(t))>>, st |-> t] ELSE [wrong |-> {e.op}, want |-> <<>>, st |-> s]
(* filters never invent rows: only players and plain drill-downs replace them *)
SiftInv(s) ==
  /\ \A i, j \in 1..Len(s.fs) : i # j => s.fs[i].id # s.fs[j].id
  /\ (\A i \in 1..Len(s.fs) : s.fs[i].mode # "rows") => (Range(ShownD(s)) \subseteq Range(s.d["D"]) /\ (s.linked => Range(ShownE(s)) \subseteq Range(ShownD(s))))
=============================================================================
