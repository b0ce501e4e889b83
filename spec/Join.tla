-------------------------------- MODULE Join --------------------------------
(* The data join of a mark: data rows -> keyed elements, with identity,      *)
(* diff states and the scene-graph children they own.                        *)
(*                                                                           *)
(* State of one mark (and the data it is bound to):                          *)
(*   cfg   : [coll, keyMode, sort, group, gsort] current join configuration  *)
(*   rows  : rows of the data grammar, committed or not                      *)
(*   dirty : a grammar the mark depends on was committed since the last run  *)
(*   els   : elements in mark order, [k, g, uid, diff, vs]                   *)
(*   kids  : uids of the elements owning the children of the mark's group    *)
(*   next  : next fresh uid                                                  *)
EXTENDS Util

Join0(cfg) == [cfg |-> cfg, rows |-> <<>>, dirty |-> TRUE, els |-> <<>>, kids |-> <<>>, next |-> 1]

NoData == <<[k |-> "undefined", j |-> "undefined", g |-> "undefined", v |-> 0]>>
Source(s) == IF s.cfg.bound THEN s.rows ELSE NoData
RowKey(c, rows, i) == CASE c.keyMode = "k" -> rows[i].k
                        [] c.keyMode = "j" -> rows[i].j
                        [] OTHER -> IF c.bound THEN ToString(i - 1) ELSE "_default"
RowGroup(c, row) == IF c.group THEN row.g ELSE "_default"

(* entries of the join: one per distinct (group, key), or per group for a collection mark *)
EntryId(c, rows, i) == IF c.coll THEN <<RowGroup(c, rows[i]), "">>
                       ELSE <<RowGroup(c, rows[i]), RowKey(c, rows, i)>>
RowLt(kind, a, b) == CASE kind = "asc" -> a.v < b.v [] kind = "desc" -> a.v > b.v [] OTHER -> FALSE
Entries(c, rows) ==
  LET ids == Uniq([i \in 1..Len(rows) |-> EntryId(c, rows, i)])
      RECURSIVE pick(_, _)
      pick(id, i) == IF i > Len(rows) THEN <<>>
                     ELSE (IF EntryId(c, rows, i) = id THEN <<rows[i]>> ELSE <<>>) \o pick(id, i + 1)
      Members(id) == LET m == pick(id, 1) IN
                     IF c.coll THEN StableSort(m, LAMBDA a, b : RowLt(c.gsort, a, b)) ELSE m
  IN [i \in 1..Len(ids) |-> [id |-> ids[i], rows |-> Members(ids[i])]]

ElOf(els, id) == SelectSeq(els, LAMBDA e : <<e.g, IF e.c THEN "" ELSE e.k>> = id)

Run(s) ==
  IF ~s.dirty THEN s ELSE
  LET c == s.cfg
      rows == Source(s)
      ents == Entries(c, rows)
      Known(id) == Len(ElOf(s.els, id)) > 0
      RECURSIVE mk(_, _, _)
      mk(i, nxt, acc) ==
        IF i > Len(ents) THEN [els |-> acc, next |-> nxt]
        ELSE LET en == ents[i]
                 known == Known(en.id)
                 u == IF known THEN ElOf(s.els, en.id)[1].uid ELSE nxt
                 el == [k |-> IF c.coll THEN en.id[1] ELSE en.id[2], g |-> en.id[1], uid |-> u, c |-> c.coll,
                        diff |-> IF known THEN "update" ELSE "enter",
                        vs |-> Map(en.rows, LAMBDA r : r.v)]
             IN mk(i + 1, IF known THEN nxt ELSE nxt + 1, Append(acc, el))
      r == mk(1, s.next, <<>>)

      alive == {r.els[i].uid : i \in 1..Len(r.els)}
      sorted == StableSort(r.els, LAMBDA a, b : RowLt(c.sort, [v |-> a.vs[1]], [v |-> b.vs[1]]))
  IN [s EXCEPT !.els = sorted, !.next = r.next, !.dirty = FALSE,
               !.kids = SelectSeq(s.kids, LAMBDA u : u \in alive) \o Map(SelectSeq(sorted, LAMBDA e : e.diff = "enter"), LAMBDA e : e.uid)]

SetRows(s, rows) == [s EXCEPT !.rows = rows, !.dirty = s.dirty \/ s.cfg.bound]
Touch(s) == [s EXCEPT !.dirty = TRUE]
Rejoin(s, c) == [s EXCEPT !.cfg = c, !.dirty = TRUE]

JoinStep(s, e) == CASE e.op = "rows" -> SetRows(s, e.rows)
                    [] e.op = "touch" -> Touch(s)
                    [] e.op = "rejoin" -> Rejoin(s, e.cfg)
                    [] e.op = "run" -> Run(s)

JoinObs(s) == [els |-> Map(s.els, LAMBDA e : [k |-> e.k, g |-> e.g, uid |-> e.uid, diff |-> e.diff, vs |-> e.vs]),
               kids |-> s.kids]

JoinAccept(s, e) == ~Has(e, "obs") \/ e.obs = JoinObs(JoinStep(s, e))
JoinExplain(s, e) == JoinObs(JoinStep(s, e))

(* ------------------------------------------------------------- properties *)
(* one element per key; scene graph holds exactly the elements; nothing else survives *)
JoinInv(s) ==
  /\ Cardinality({s.els[i].uid : i \in 1..Len(s.els)}) = Len(s.els)
  /\ Range(s.kids) = {s.els[i].uid : i \in 1..Len(s.els)} /\ Len(s.kids) = Len(s.els)
  /\ ~s.dirty => {<<s.els[i].g, s.els[i].k>> : i \in 1..Len(s.els)}
                 = {IF s.cfg.coll THEN <<RowGroup(s.cfg, Source(s)[i]), RowGroup(s.cfg, Source(s)[i])>>
                    ELSE EntryId(s.cfg, Source(s), i) : i \in 1..Len(Source(s))}
  /\ ~s.dirty => SumSeq(Map(s.els, LAMBDA e : Len(e.vs))) = Len(Source(s))
(* identity: an element that survives keeps its key, and its uid is never reused *)
JoinIdentity(s, t) ==
  /\ t.next >= s.next
  /\ \A i \in 1..Len(t.els) : t.els[i].diff = "enter" /\ t.els # s.els => t.els[i].uid >= s.next \/ \E j \in 1..Len(s.els) : s.els[j] = t.els[i]
  /\ \A i \in 1..Len(t.els), j \in 1..Len(s.els) :
        t.els[i].uid = s.els[j].uid => t.els[i].k = s.els[j].k /\ t.els[i].g = s.els[j].g
==============================================================================
