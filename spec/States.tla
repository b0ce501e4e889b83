------------------------------- MODULE States -------------------------------
(* States of the elements of a mark.                                         *)
(*   els : element key -> [v, st, rt]: datum, active states in order, runtime *)
(*         encoders kept for states (absent = none)                           *)
(* The attribute of a graphic is its base value overridden by the active      *)
(* states in order.                                                          *)
EXTENDS Util
NAI == -99999999
Names == <<"f", "h", "q", "s", "z">>      \* f: function encoder; z: no encoder
Channels == {"x", "y", "size", "lineWidth"}

States0(cfg) == [enc |-> cfg.enc, st |-> cfg.st, sort |-> cfg.sort, ms |-> cfg.ms, sig |-> cfg.sig, rows |-> <<>>, els |-> <<>>, dirty |-> TRUE, ret |-> FALSE]

EncVal(s, e, v) == CASE e.t = "const" -> e.c [] e.t = "field" -> v [] e.t = "sig" -> s.sig [] e.t = "sum" -> v * 3 + s.sig + e.c
EncAll(s, m, v) == [c \in DOMAIN m |-> EncVal(s, m[c], v)]
Rank(n) == Index(Names, n)
Sorted(s, q) == CASE s.sort = "asc" -> StableSort(q, LAMBDA a, b : Rank(a) < Rank(b))
                  [] s.sort = "desc" -> StableSort(q, LAMBDA a, b : Rank(a) > Rank(b))
                  [] OTHER -> q
HasRt(el, n) == n \in DOMAIN el.rt
Merge(a, b) == [c \in DOMAIN a \cup DOMAIN b |-> IF c \in DOMAIN b THEN b[c] ELSE a[c]]
Empty == [c \in {} |-> 0]
(* what state n contributes to element el when the active states are el.st *)
Contribution(s, el, n) ==
  IF n = "f" THEN (IF HasRt(el, "f") THEN EncAll(s, el.rt["f"], el.v)
                   ELSE IF s.st.hasf THEN [c \in {"x", "size"} |-> IF c = "x" THEN 100 + 10 * Len(el.st) + el.v ELSE 200 + el.v] ELSE Empty)
  ELSE LET own == IF n \in DOMAIN s.st.by THEN EncAll(s, s.st.by[n], el.v) ELSE Empty
           rt == IF HasRt(el, n) THEN EncAll(s, el.rt[n], el.v) ELSE Empty
       IN Merge(own, rt)
RECURSIVE Apply(_, _, _, _)
Apply(s, el, i, acc) == IF i > Len(el.st) THEN acc ELSE Apply(s, el, i + 1, Merge(acc, Contribution(s, el, el.st[i])))
Attrs(s, el) == LET a == Apply(s, el, 1, EncAll(s, s.enc, el.base)) IN
                [c \in Channels |-> IF c \in DOMAIN a THEN a[c] ELSE NAI]
Encoded(s, n) == (n = "f" /\ s.st.hasf) \/ n \in DOMAIN s.st.by
In(q, n) == \E i \in 1..Len(q) : q[i] = n
Without(q, S) == SelectSeq(q, LAMBDA x : x \notin S)
SetRt(el, n, a) == [el EXCEPT !.rt = [k \in DOMAIN @ \cup {n} |-> IF k = n THEN a ELSE @[k]]]
DropRt(el, S) == [el EXCEPT !.rt = [k \in DOMAIN @ \ S |-> @[k]]]

(* ---- operations on one element: new element *)
Use(s, el, q) == [el EXCEPT !.st = Sorted(s, q)]
RECURSIVE AddAll(_, _, _)
AddAll(s, q, names) == IF names = <<>> THEN q
  ELSE AddAll(s, IF In(q, names[1]) \/ ~Encoded(s, names[1]) THEN q ELSE Append(q, names[1]), Tail(names))
Add(s, el, names) == LET q == AddAll(s, el.st, names) IN IF Len(q) = Len(el.st) THEN el ELSE Use(s, el, q)
AddRt(s, el, n, a) == LET e2 == SetRt(el, n, a) IN IF HasRt(el, n) /\ el.rt[n] = a /\ In(el.st, n) THEN el
                      ELSE Use(s, e2, IF In(el.st, n) THEN el.st ELSE Append(el.st, n))
Remove(s, el, names) == LET q == Without(el.st, Range(names)) IN
  IF Len(q) = Len(el.st) THEN el ELSE Use(s, DropRt(el, Range(names)), q)
Clear(el) == [el EXCEPT !.st = <<>>, !.rt = Empty]
(* update: ordered list of [n, on, has, a] *)
RECURSIVE Upd(_, _, _, _)
Upd(s, el, ups, i) == IF i > Len(ups) THEN el ELSE
  LET u == ups[i]
      nxt == IF u.has THEN (IF HasRt(el, u.n) /\ el.rt[u.n] = u.a /\ In(el.st, u.n) THEN el
                            ELSE [SetRt(el, u.n, u.a) EXCEPT !.st = IF In(@, u.n) THEN @ ELSE Append(@, u.n)])
             ELSE IF u.on THEN (IF In(el.st, u.n) \/ ~Encoded(s, u.n) THEN el ELSE [el EXCEPT !.st = Append(@, u.n)])
             ELSE DropRt([el EXCEPT !.st = Without(@, {u.n})], {u.n})
  IN Upd(s, nxt, ups, i + 1)
UpdateStates(s, el, ups) == LET e2 == Upd(s, el, ups, 1) IN IF e2.st = el.st THEN e2 ELSE Use(s, e2, e2.st)
Changed(a, b) == a.st # b.st

MarkState(s, v) == CASE s.ms.t = "const" -> s.ms.q [] s.ms.t = "odd" -> (IF v % 2 = 1 THEN s.ms.q ELSE <<>>) [] OTHER -> <<>>
Run(s) == IF ~s.dirty THEN s ELSE
  LET Old(k) == SelectSeq(s.els, LAMBDA e : e.k = k)
      mk(row) == LET o == Old(row.k)
                     b == IF Len(o) > 0 THEN [o[1] EXCEPT !.v = row.v, !.base = row.v] ELSE [k |-> row.k, v |-> row.v, base |-> row.v, st |-> <<>>, rt |-> Empty]
                 IN IF s.ms.t = "none" THEN b ELSE [b EXCEPT !.st = Sorted(s, MarkState(s, row.v))]
  IN [s EXCEPT !.els = Map(s.rows, mk), !.dirty = FALSE]
OnEl(s, k, F(_)) == [s EXCEPT !.els = Map(@, LAMBDA e : IF e.k = k THEN F(e) ELSE e)]

StatesStep(s, e) ==
  CASE e.op = "rows" -> [s EXCEPT !.rows = e.rows, !.dirty = TRUE]
    [] e.op = "ms"   -> [s EXCEPT !.ms = e.ms, !.dirty = TRUE]
    [] e.op = "def"  -> [s EXCEPT !.st.by = [n \in DOMAIN @ \cup {e.n} |-> IF n = e.n THEN e.m ELSE @[n]], !.dirty = TRUE]
    [] e.op = "sig"  -> [s EXCEPT !.sig = e.v, !.dirty = TRUE]
    [] e.op = "run"  -> Run(s)
    [] e.op = "use"  -> OnEl(s, e.k, LAMBDA x : Use(s, x, e.q))
    [] e.op = "add"  -> OnEl(s, e.k, LAMBDA x : Add(s, x, e.q))
    [] e.op = "rt"   -> OnEl(s, e.k, LAMBDA x : AddRt(s, x, e.n, e.a))
    [] e.op = "del"  -> OnEl(s, e.k, LAMBDA x : Remove(s, x, e.q))
    [] e.op = "upd"  -> OnEl(s, e.k, LAMBDA x : UpdateStates(s, x, e.u))
    [] e.op = "clear" -> OnEl(s, e.k, LAMBDA x : Clear(x))
    [] OTHER -> s
StatesObs(s) == Map(s.els, LAMBDA el : LET a == Attrs(s, el) IN [k |-> el.k, st |-> el.st, at |-> <<a.x, a.y, a.size, a.lineWidth>>])
StatesAccept(s, e) == e.op # "threw" /\ (Has(e, "obs") => e.obs = StatesObs(StatesStep(s, e)))
StatesExplain(s, e) == IF e.op = "threw" THEN <<>> ELSE StatesObs(StatesStep(s, e))
(* no state twice; without states the base values show; sorted when a sort is given *)
StatesInv(s) == \A i \in 1..Len(s.els) : LET el == s.els[i] IN
  /\ el.st = <<>> /\ ~s.dirty => \A c \in DOMAIN s.enc : Attrs(s, el)[c] = EncVal(s, s.enc[c], el.base)
==============================================================================
