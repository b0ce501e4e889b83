----------------------------- MODULE InteractMC -----------------------------
EXTENDS Interact, Json, CSV, IOUtils
CONSTANTS MaxOps, Emit
VARIABLES st, n, hist
Enc0 == [A |-> <<"sel", "rev", "hl", "blur", "act">>, B |-> <<"sel", "blur">>, C |-> <<>>]
Ev(v) == [t |-> "ev", v |-> v, d |-> 0]
Vw(v) == [t |-> "view", v |-> v, d |-> 0]
Nm(d) == [t |-> "num", v |-> "", d |-> d]
Em == [t |-> "empty", v |-> "", d |-> 0]
O(kind, name, marks, state, rev, multi, trig, off) ==
  [kind |-> kind, name |-> name, iid |-> "id" \o name, marks |-> marks, state |-> state, rev |-> rev, multi |-> multi,
   trig |-> trig, off |-> off, by |-> "key", names |-> <<"lbl">>]
Sels == {O("element-select", "S", <<"A", "B">>, "sel", rv, mu, <<"click">>, off) :
           rv \in {"", "rev"}, mu \in BOOLEAN, off \in {<<Em>>, <<Ev("click")>>, <<Vw("dblclick")>>, <<Nm(1111)>>}}
Highs == {O("element-highlight", "H", <<"A", "B">>, "hl", "blur", FALSE, <<"pointerover">>, <<f>>) : f \in {Ev("pointerout"), Vw("pointerout")}}
      \cup {O("element-highlight-by-key", "H", <<"A", "B">>, "hl", "blur", FALSE, <<"pointerover">>, <<Ev("pointerout")>>)}
Row(k, g, nm) == [k |-> k, g |-> g, nm |-> nm, f |-> k]
RA == <<Row("a", "g", "p"), Row("b", "h", "q")>>
RA2 == <<Row("b", "h", "q")>>
RB == <<Row("a", "g", "p")>>
RC == <<Row("c", "g", "lbl")>>
Start(c, s, h) ==
  LET f(x, e) == InteractStep(x, e)
      seq == <<[op |-> "rows", m |-> "A", rows |-> RA], [op |-> "rows", m |-> "B", rows |-> RB], [op |-> "rows", m |-> "C", rows |-> RC],
               [op |-> "bind", o |-> s], [op |-> "bind", o |-> h]>>
  IN [st |-> Fold(f, Interact0(c), seq), hist |-> <<[op |-> "reset", cfg |-> c]>> \o seq]
E(ty, t, m, k) == [op |-> "ev", ty |-> ty, t |-> t, m |-> m, k |-> k, name |-> "", text |-> "", key |-> ""]
Tgts == {<<"el", "A", "a">>, <<"el", "A", "b">>, <<"el", "B", "a">>, <<"el", "C", "c">>, <<"stage", "", "">>}
Ops == {E(ty, t[1], t[2], t[3]) : ty \in {"click", "pointerover"}, t \in Tgts}
  \cup {E(ty, t[1], t[2], t[3]) : ty \in {"dblclick", "pointerout"}, t \in {<<"el", "A", "a">>, <<"stage", "", "">>}}
  \cup {[op |-> "rows", m |-> "A", rows |-> RA2], [op |-> "rows", m |-> "A", rows |-> RA]}
  \cup {[op |-> "ireset", i |-> "S"], [op |-> "ireset", i |-> "H"], [op |-> "tick", dt |-> 1111]}
  \cup {[op |-> "unbind", by |-> "inst", v |-> "S"], [op |-> "unbind", by |-> "all", v |-> ""]}
Enabled(s, e) == e.op = "ev" /\ e.t = "el" => Find(s, e.m, e.k) # <<>>
Cfg == [enc |-> Enc0]
Init == \E s \in Sels, h \in Highs : LET r == Start(Cfg, s, h) IN st = r.st /\ n = 0 /\ hist = IF Emit THEN r.hist ELSE <<>>
Next == n < MaxOps /\ \E e \in Ops : Enabled(st, e) /\ st' = [InteractStep(st, e) EXCEPT !.log = <<>>] /\ n' = n + 1 /\ hist' = IF Emit THEN Append(hist, e) ELSE hist
Spec == Init /\ [][Next]_<<st, n, hist>>
View == <<st, n>>
Inv == InteractInv(st)
Se == st.ints[1]
Hi == st.ints[2]
Elems == Range(st.els)
Having(x) == {ID(el) : el \in {y \in Elems : In(y.st, x)}}
LiveOf(q) == {id \in Range(q) : Live(st, id)}
(* the selected elements are those the selection remembers; nothing is left when it forgets *)
Select == /\ Having("sel") = {id \in LiveOf(Se.stated) : Enc(st, id.m, "sel")}
          /\ (Se.stated = <<>> => Having("rev") = {})
          /\ Having("sel") \cap Having("rev") = {}
          /\ (~Se.multi => Len(Se.stated) <= 1)
          /\ (Having("rev") # {} => Se.rev = "rev")
Highlight == /\ Having("hl") \cap Having("blur") = {}
             /\ (Hi.kind = "element-highlight" => Having("hl") = {id \in LiveOf(<<Hi.last>>) : Enc(st, id.m, "hl")}
                                                  /\ (Hi.last = None => Having("blur") = {}))
(* with everything unbound no event has an effect *)
Quiet == ~Se.on /\ ~Hi.on => \A e \in Ops : e.op = "ev" /\ Enabled(st, e) => InteractStep(st, e).els = st.els
EmitAll == n' = MaxOps => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
==============================================================================
