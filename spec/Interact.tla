------------------------------ MODULE Interact ------------------------------
(* Interactions bound to the marks of a view.                                *)
(*   els  : elements of all marks, in order: [m, k, n, g, nm, st]; n counts   *)
(*          the generations of a key, st is the sequence of active states     *)
(*   ints : bound interactions in order: options plus                         *)
(*          stated (elements chosen), last (element highlighted / activated), *)
(*          due (time at which the selection expires, 0 none), on             *)
(*   log  : start and reset notifications of the last step                    *)
EXTENDS Util
None == [m |-> "", k |-> "", n |-> 0]
ID(el) == [m |-> el.m, k |-> el.k, n |-> el.n]
Enc(s, m, x) == x # "" /\ x \in Range(s.enc[m])
In(q, x) == \E i \in 1..Len(q) : q[i] = x
Add(s, m, q, x) == IF In(q, x) \/ ~Enc(s, m, x) THEN q ELSE Append(q, x)
Rem(q, X) == SelectSeq(q, LAMBDA y : y \notin X)
RemIf(c, q, x) == IF c THEN Rem(q, {x}) ELSE q
AddIf(c, s, m, q, x) == IF c THEN Add(s, m, q, x) ELSE q
MapEls(s, F(_)) == [s EXCEPT !.els = Map(@, LAMBDA el : [el EXCEPT !.st = F(el)])]
Live(s, id) == \E i \in 1..Len(s.els) : ID(s.els[i]) = id
ElOf(s, id) == s.els[CHOOSE i \in 1..Len(s.els) : ID(s.els[i]) = id]
Find(s, m, k) == SelectSeq(s.els, LAMBDA el : el.m = m /\ el.k = k)
Fmt(s, ids) == Map(Filter(ids, LAMBDA id : Live(s, id)), LAMBDA id : id.m \o "|" \o id.k)
Note(s, i, what, ids) == [s EXCEPT !.log = @ \o <<[src |-> s.ints[i].kind, what |-> what, els |-> Fmt(s, ids)],
                                                  [src |-> s.ints[i].name, what |-> what, els |-> Fmt(s, ids)]>>]
Mine(s, i, m) == m \in Range(s.ints[i].marks)

(* ---- selection: toggling the state and the state of everything else *)
Toggle(s, i, new, prev) == LET o == s.ints[i] IN MapEls(s, LAMBDA el :
  LET p == In(prev, ID(el))  nw == In(new, ID(el))
      q1 == IF o.rev = "" THEN el.st ELSE RemIf(nw /\ Enc(s, el.m, o.rev), AddIf(p, s, el.m, el.st, o.rev), o.rev)
  IN AddIf(nw, s, el.m, RemIf(p /\ Enc(s, el.m, o.state), q1, o.state), o.state))
First(s, i, new) == LET o == s.ints[i] IN MapEls(s, LAMBDA el :
  IF ~Mine(s, i, el.m) THEN el.st
  ELSE IF In(new, ID(el)) THEN Add(s, el.m, el.st, o.state)
  ELSE AddIf(o.rev # "", s, el.m, el.st, o.rev))
Update(s, i, new) == LET prev == s.ints[i].stated
                         s1 == IF prev # <<>> THEN Toggle(s, i, new, prev) ELSE First(s, i, new)
                     IN [s1 EXCEPT !.ints[i].stated = new]
Clear(s, i) == LET o == s.ints[i] IN MapEls(s, LAMBDA el :
  IF ~Mine(s, i, el.m) THEN el.st
  ELSE RemIf(In(o.stated, ID(el)) /\ Enc(s, el.m, o.state), RemIf(Enc(s, el.m, o.rev), el.st, o.rev), o.state))

Expires(o) == \E j \in 1..Len(o.off) : o.off[j].t = "num"
OnView(o) == \E j \in 1..Len(o.off) : o.off[j].t \in {"empty", "view"}
OnSelf(o) == \E j \in 1..Len(o.off) : o.off[j].t = "ev"
Timeout(o) == LET q == SelectSeq(o.off, LAMBDA f : f.t = "num") IN q[1].d
SelReset(s, i) == IF s.ints[i].stated = <<>> THEN s
  ELSE [Note(Clear(s, i), i, "reset", s.ints[i].stated) EXCEPT !.ints[i].stated = <<>>]
SelStart(s, i, id) ==
  LET o == s.ints[i] IN
  IF id # None /\ Mine(s, i, id.m) THEN
    IF In(ElOf(s, id).st, o.state) THEN
      (IF ~OnSelf(o) THEN s
       ELSE LET rest == SelectSeq(o.stated, LAMBDA x : x # id) IN
            IF rest = <<>> THEN SelReset(s, i) ELSE Update(s, i, rest))
    ELSE LET s1 == MapEls(s, LAMBDA el : AddIf(ID(el) = id, s, el.m, el.st, o.state))
             s2 == Update(s1, i, IF o.multi THEN Append(o.stated, id) ELSE <<id>>)
             s3 == Note(s2, i, "start", s2.ints[i].stated)
         IN [s3 EXCEPT !.ints[i].due = IF Expires(o) THEN s.now + Timeout(o) ELSE 0]
  ELSE IF OnView(o) THEN SelReset(s, i) ELSE s
SelOff(s, i, id) ==
  LET o == s.ints[i]  hit == id # None /\ Mine(s, i, id.m) IN
  IF (OnView(o) /\ ~hit) \/ (OnSelf(o) /\ hit) THEN SelReset(s, i) ELSE s
(* every element whose graphic has the name of the one hit, in order *)
SelNameStart(s, i, id) ==
  IF id = None THEN SelStart(s, i, id)
  ELSE LET nm == ElOf(s, id).nm
           same == SelectSeq(s.els, LAMBDA el : Mine(s, i, el.m) /\ el.nm = nm)
           ord == Concat(Map(s.ints[i].marks, LAMBDA m : SelectSeq(same, LAMBDA el : el.m = m)))
       IN Fold(LAMBDA a, el : SelStart(a, i, ID(el)), s, ord)

(* ---- highlight one element, blur the others *)
HiReset(s, i) == IF s.ints[i].last = None THEN s
  ELSE [Note(Clear(s, i), i, "reset", <<s.ints[i].last>>) EXCEPT !.ints[i].last = None, !.ints[i].stated = <<>>]
HiStart(s, i, id) ==
  LET o == s.ints[i] IN
  IF id # None /\ Mine(s, i, id.m)
  THEN IF o.last = id THEN s
       ELSE LET s1 == Update(s, i, <<id>>) IN Note([s1 EXCEPT !.ints[i].last = id], i, "start", <<id>>)
  ELSE IF OnView(o) THEN HiReset(s, i) ELSE s
HiOff(s, i, id) == LET o == s.ints[i]  hit == id # None /\ Mine(s, i, id.m) IN
  IF o.stated = <<>> THEN s
  ELSE IF (OnView(o) /\ ~hit) \/ (OnSelf(o) /\ hit) THEN HiReset(s, i) ELSE s

(* ---- highlight every element with a property, blur the others *)
Split(s, i, P(_)) == LET o == s.ints[i] IN MapEls(s, LAMBDA el :
  IF ~Mine(s, i, el.m) THEN el.st
  ELSE IF P(el) THEN Add(s, el.m, Rem(el.st, {o.rev}), o.state)
  ELSE Rem(Add(s, el.m, el.st, o.rev), {o.state}))
(* the order in which the code applies the two updates: blur first *)
DropBoth(s, i) == LET o == s.ints[i] IN MapEls(s, LAMBDA el :
  IF Mine(s, i, el.m) THEN Rem(el.st, {o.state, o.rev}) ELSE el.st)
DropOne(s, i, id) == LET o == s.ints[i] IN
  IF ~Mine(s, i, id.m) THEN s ELSE MapEls(s, LAMBDA el : IF ID(el) = id THEN Rem(el.st, {o.state} \cup (IF o.rev = "" THEN {} ELSE {o.rev})) ELSE el.st)
Prop(o, el) == CASE o.by = "key" -> el.k [] o.by = "groupKey" -> el.g [] o.by = "field" -> el.f

ActStart(s, i, id) == IF id = None \/ ~Mine(s, i, id.m) THEN s
  ELSE LET o == s.ints[i] IN [MapEls(s, LAMBDA el : AddIf(ID(el) = id, s, el.m, el.st, o.state)) EXCEPT !.ints[i].last = id]
ActOff(s, i, id) == LET o == s.ints[i]  d == IF id = None THEN o.last ELSE id IN
  IF d = None \/ ~Mine(s, i, d.m) THEN s ELSE DropOne(s, i, d)
ActKey(s, i, v) == LET o == s.ints[i] IN MapEls(s, LAMBDA el :
  IF ~Mine(s, i, el.m) THEN el.st ELSE IF Prop(o, el) = v THEN Add(s, el.m, el.st, o.state) ELSE Rem(el.st, {o.state}))

(* ---- what an event does to one interaction; e: [ty, id, name, text, key] *)
Trig(o, ty) == In(o.trig, ty)
Offs(o, ty) == \E j \in 1..Len(o.off) : o.off[j].t \in {"ev", "view"} /\ o.off[j].v = ty
OnStart(s, i, e) == LET o == s.ints[i] IN
  CASE o.kind = "element-select" -> SelStart(s, i, e.id)
    [] o.kind = "element-select-by-graphic-name" -> SelNameStart(s, i, e.id)
    [] o.kind = "element-highlight" -> HiStart(s, i, e.id)
    [] o.kind = "element-active" -> ActStart(s, i, e.id)
    [] o.kind = "element-highlight-by-key" -> IF e.id # None /\ Mine(s, i, e.id.m) THEN Split(s, i, LAMBDA el : el.k = e.id.k) ELSE s
    [] o.kind = "element-highlight-by-group" -> IF e.id # None /\ Mine(s, i, e.id.m) THEN Split(s, i, LAMBDA el : el.g = ElOf(s, e.id).g) ELSE s
    [] o.kind = "element-highlight-by-graphic-name" -> IF e.id # None /\ Mine(s, i, e.id.m) THEN Split(s, i, LAMBDA el : el.nm = e.name) ELSE s
    [] o.kind = "element-highlight-by-name" -> IF In(o.names, e.name) /\ e.text # "" THEN Split(s, i, LAMBDA el : Prop(o, el) = e.text) ELSE s
    [] o.kind = "element-highlight-by-legend" -> Split(s, i, LAMBDA el : Prop(o, el) = e.key)
    [] o.kind = "element-active-by-legend" -> ActKey(s, i, e.key)
OnOff(s, i, e) == LET o == s.ints[i] IN
  CASE o.kind \in {"element-select", "element-select-by-graphic-name"} -> IF o.stated = <<>> THEN s ELSE SelOff(s, i, e.id)
    [] o.kind = "element-highlight" -> HiOff(s, i, e.id)
    [] o.kind = "element-active" -> ActOff(s, i, e.id)
    [] o.kind \in {"element-highlight-by-key", "element-highlight-by-group", "element-highlight-by-graphic-name"} ->
         IF e.id # None /\ Mine(s, i, e.id.m) THEN DropBoth(s, i) ELSE s
    [] o.kind = "element-highlight-by-name" -> IF In(o.names, e.name) THEN DropBoth(s, i) ELSE s
    [] o.kind \in {"element-highlight-by-legend", "element-active-by-legend"} -> DropBoth(s, i)
Deliver(s, e) == Fold(LAMBDA a, i :
    IF ~a.ints[i].on THEN a
    ELSE LET o == a.ints[i] IN
         IF Trig(o, e.ty) THEN OnStart(a, i, e) ELSE IF Offs(o, e.ty) THEN OnOff(a, i, e) ELSE a,
  s, [j \in 1..Len(s.ints) |-> j])

(* ---- the interaction driven through its own methods *)
ApiReset(s, i) == LET o == s.ints[i] IN
  CASE o.kind \in {"element-select", "element-select-by-graphic-name"} -> SelReset(s, i)
    [] o.kind = "element-highlight" -> HiReset(s, i)
    [] o.kind = "element-active" -> ActOff(s, i, None)
    [] OTHER -> DropBoth(s, i)
ApiStart(s, i, e) == OnStart(s, i, e)

Tick(s, dt) ==
  LET t == s.now + dt
      RECURSIVE go(_)
      go(a) == LET D == {i \in 1..Len(a.ints) : a.ints[i].due > 0 /\ a.ints[i].due <= t} IN
        IF D = {} THEN a
        ELSE LET i == CHOOSE x \in D : \A y \in D : a.ints[x].due < a.ints[y].due \/ (a.ints[x].due = a.ints[y].due /\ x <= y)
             IN go(SelReset([a EXCEPT !.ints[i].due = 0], i))
  IN [go(s) EXCEPT !.now = t]
Rows(s, m, rows) ==
  LET one(row) == LET old == Find(s, m, row.k) IN
        IF old # <<>> THEN [old[1] EXCEPT !.g = row.g, !.f = row.f]
        ELSE [m |-> m, k |-> row.k, n |-> s.gen, g |-> row.g, nm |-> row.nm, f |-> row.f, st |-> <<>>]
  IN [s EXCEPT !.els = SelectSeq(@, LAMBDA el : el.m # m) \o Map(rows, one), !.gen = @ + 1]
NewInt(o) == [kind |-> o.kind, name |-> o.name, iid |-> o.iid, marks |-> o.marks, state |-> o.state, rev |-> o.rev, multi |-> o.multi,
              trig |-> o.trig, off |-> o.off, by |-> o.by, names |-> o.names, stated |-> <<>>, last |-> None, due |-> 0, on |-> TRUE]
Target(s, e) == IF e.t = "el" THEN (LET q == Find(s, e.m, e.k) IN IF q = <<>> THEN None ELSE ID(q[1])) ELSE None
Evt(s, e) == [ty |-> e.ty, id |-> Target(s, e), name |-> e.name, text |-> e.text, key |-> e.key]
Unbind(s, e) == [s EXCEPT !.ints = Map(@, LAMBDA o :
  IF e.by = "all" \/ (e.by = "type" /\ o.kind = e.v) \/ (e.by = "id" /\ o.iid = e.v) \/ (e.by = "inst" /\ o.name = e.v)
  THEN [o EXCEPT !.on = FALSE] ELSE o)]
IntOf(s, nm) == CHOOSE i \in 1..Len(s.ints) : s.ints[i].name = nm

Interact0(cfg) == [enc |-> cfg.enc, els |-> <<>>, ints |-> <<>>, gen |-> 1, now |-> 0, log |-> <<>>]
InteractStep(s0, e) == LET s == [s0 EXCEPT !.log = <<>>] IN
  CASE e.op = "rows" -> Rows(s, e.m, e.rows)
    [] e.op = "bind" -> [s EXCEPT !.ints = Append(@, NewInt(e.o))]
    [] e.op = "unbind" -> Unbind(s, e)
    [] e.op = "ev" -> Deliver(s, Evt(s, e))
    [] e.op = "start" -> ApiStart(s, IntOf(s, e.i), Evt(s, e))
    [] e.op = "ireset" -> ApiReset(s, IntOf(s, e.i))
    [] e.op = "resetEl" -> (LET d == Target(s, e) IN IF d = None THEN s ELSE DropOne(s, IntOf(s, e.i), d))
    [] e.op = "tick" -> Tick(s, e.dt)
    [] OTHER -> s
Obs(s) == [st |-> Map(s.els, LAMBDA el : [id |-> el.m \o "|" \o el.k, st |-> el.st]), log |-> s.log]
(* elements are reported mark by mark *)
Same(s, e) == LET o == Obs(s) IN
  /\ Len(e.obs) = Len(o.st)
  /\ \A i \in 1..Len(o.st) : \E j \in 1..Len(e.obs) : e.obs[j] = o.st[i]
  /\ e.log = o.log
InteractAccept(s, e) == e.op # "threw" /\ (Has(e, "obs") => Same(InteractStep(s, e), e))
InteractExplain(s, e) == IF e.op = "threw" THEN [st |-> <<>>, log |-> <<>>] ELSE Obs(InteractStep(s, e))
(* no state is active twice and only states with an encoder are active *)
InteractInv(s) == \A i \in 1..Len(s.els) : LET el == s.els[i] IN
  Cardinality(Range(el.st)) = Len(el.st) /\ \A j \in 1..Len(el.st) : Enc(s, el.m, el.st[j])
==============================================================================
