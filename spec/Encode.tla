------------------------------- MODULE Encode -------------------------------
(* Visual encoding: attributes of the graphic of every element of a mark.    *)
(*   enc   : state -> channel -> encoder, state in enter/update/group         *)
(*   els   : elements in data order [id, g, rows, at]; at: channel -> value   *)
(* Encoders: const, field, signal, linear scale (of field or value, offset),  *)
(*           band scale (field or value, offset, band), callback.             *)
EXTENDS Util
NAI == -99999999
Channels == {"x", "y", "size", "lineWidth"}
Blank == [x |-> NAI, y |-> NAI, size |-> NAI, lineWidth |-> NAI]

Encode0(cfg) == [coll |-> cfg.coll, group |-> cfg.group, enc |-> cfg.enc, fn |-> cfg.fn, rows |-> <<>>, sig |-> cfg.sig,
                 reenter |-> TRUE, dirty |-> TRUE, els |-> <<>>, lin |-> cfg.lin]

(* band scale: domain = distinct keys of the data in order, step 20 per key; linear: [0,10] -> [0, sig.r*10] *)
BandKeys(s) == Uniq(Map(s.rows, LAMBDA r : r.k))
Linear(s, v) == 5 + v * s.sig.r
Band(s, k) == (Index(BandKeys(s), k) - 1) * 20
Known(s, k) == Index(BandKeys(s), k) > 0
EncVal(s, e, row) ==
  CASE e.t = "const" -> e.c
    [] e.t = "field" -> row.v
    [] e.t = "sig"   -> s.sig[e.s]
    [] e.t = "fn"    -> row.v * 2 + s.sig[e.s] + e.c
    [] e.t = "lin"   -> Linear(s, IF e.f = "v" THEN row.v ELSE e.c) + e.off
    [] e.t = "band"  -> Band(s, row.k) + e.off + e.half * 10
    [] OTHER -> NAI
EncFor(s, state, row) == [ch \in DOMAIN s.enc[state] |-> EncVal(s, s.enc[state][ch], row)]
Over(a, b) == [ch \in DOMAIN a |-> IF ch \in DOMAIN b THEN b[ch] ELSE a[ch]]

Ids(s) == Uniq(Map(s.rows, LAMBDA r : IF s.coll THEN (IF s.group THEN r.g ELSE "all") ELSE (IF s.group THEN r.g \o "-" \o r.k ELSE r.k)))
RowId(s, r) == IF s.coll THEN (IF s.group THEN r.g ELSE "all") ELSE (IF s.group THEN r.g \o "-" \o r.k ELSE r.k)
GroupOf(s, r) == IF s.group THEN r.g ELSE "all"
(* the group encoder is evaluated once per group, on the first datum of its first element *)
GroupAttrs(s, g) == LET m == SelectSeq(s.rows, LAMBDA r : GroupOf(s, r) = g) IN EncFor(s, "group", m[1])
PosCh == {"x", "y"}
Item(s, row, first, known) ==
  LET ent == EncFor(s, "enter", row)
      upd == EncFor(s, "update", row)
      useEnter == ~known \/ s.coll \/ s.reenter
      base == IF s.coll THEN Blank ELSE Over(Blank, GroupAttrs(s, GroupOf(s, row)))
      withEnter == IF useEnter THEN Over(base, ent) ELSE base
      all == Over(withEnter, upd)
  IN all
Run(s) == IF ~s.dirty THEN s ELSE
  LET Old(id) == SelectSeq(s.els, LAMBDA e : e.id = id)
      Make(id) ==
        LET rows == SelectSeq(s.rows, LAMBDA r : RowId(s, r) = id)
            known == Len(Old(id)) > 0
            prev == IF known THEN Old(id)[1].at ELSE Blank
            items == [i \in 1..Len(rows) |-> Item(s, rows[i], i = 1, known)]
            fresh == IF s.coll THEN Over(items[1], GroupAttrs(s, GroupOf(s, rows[1]))) ELSE items[1]
            at == [ch \in Channels |-> IF fresh[ch] # NAI THEN fresh[ch] ELSE prev[ch]]
        IN [id |-> id, at |-> at,
            pts |-> IF s.coll THEN Map(items, LAMBDA it : <<it.x, it.y>>) ELSE <<>>]
  IN [s EXCEPT !.els = Map(Ids(s), Make), !.dirty = FALSE, !.reenter = FALSE]

SetEnc(s, state, ch, e) == [s EXCEPT !.enc[state] = [c \in DOMAIN @ \cup {ch} |-> IF c = ch THEN e ELSE @[c]],
                                     !.dirty = TRUE, !.reenter = @ \/ state = "enter"]
ReplaceEnc(s, state, m) == [s EXCEPT !.enc[state] = m, !.dirty = TRUE, !.reenter = @ \/ state = "enter"]

EncodeStep(s, e) ==
  CASE e.op = "rows"    -> [s EXCEPT !.rows = e.rows, !.dirty = TRUE]
    [] e.op = "sig"     -> [s EXCEPT !.sig[e.s] = e.v, !.dirty = @ \/ e.dep]
    [] e.op = "encode"  -> SetEnc(s, e.state, e.ch, e.enc)
    [] e.op = "replace" -> ReplaceEnc(s, e.state, e.encs)
    [] e.op = "run"     -> Run(s)
    [] OTHER -> s
EncodeObs(s) == Map(s.els, LAMBDA e :
   IF s.coll THEN [id |-> e.id, at |-> <<e.at.size, e.at.lineWidth>>, pts |-> e.pts]
   ELSE [id |-> e.id, at |-> <<e.at.size, e.at.lineWidth, e.at.x, e.at.y>>, pts |-> <<>>])
EncodeAccept(s, e) == e.op # "threw" /\ (Has(e, "obs") => e.obs = EncodeObs(EncodeStep(s, e)))
EncodeExplain(s, e) == IF e.op = "threw" THEN <<>> ELSE EncodeObs(EncodeStep(s, e))
(* after a run, every channel with an update encoder holds its value for the current inputs *)
EncodeInv(s) == ~s.dirty /\ ~s.coll =>
  \A i \in 1..Len(s.els) : LET rows == SelectSeq(s.rows, LAMBDA r : RowId(s, r) = s.els[i].id) IN
    \A ch \in DOMAIN s.enc["update"] : s.els[i].at[ch] = EncVal(s, s.enc["update"][ch], rows[1])
==============================================================================
