------------------------------ MODULE EventsMC ------------------------------
EXTENDS Events, Json, CSV, IOUtils
CONSTANTS MaxOps, Emit
VARIABLES st, n, hist
R(k, v) == [k |-> k, v |-> v]
Marks0 == <<[id |-> "A", name |-> "n1", type |-> "symbol", rows |-> <<R("p", 2), R("q", 5)>>],
            [id |-> "B", name |-> "n2", type |-> "rect", rows |-> <<R("p", 4)>>],
            [id |-> "C", name |-> "n1", type |-> "rect", rows |-> <<>>]>>
Ev0(prm, pv) == [disable |-> FALSE, permit |-> prm, prev |-> pv]
AllOk == [all |-> TRUE, q |-> <<>>]
Evs == {Ev0(AllOk, [t |-> "only", q |-> <<"click">>]), Ev0([all |-> FALSE, q |-> <<"click", "pointerdown", "pointerup">>], [t |-> "none", q |-> <<>>])}
Sel(by, v) == [by |-> by, v |-> v]
A(sg, cb, c, dep) == [sig |-> sg, cb |-> cb, c |-> c, dep |-> dep]
L0(id, u, role, src, sel, ty, filt, acts, cons, deb, thr) ==
  [id |-> id, u |-> u, role |-> role, src |-> src, sel |-> sel, ty |-> ty, filt |-> filt, acts |-> acts, consume |-> cons, deb |-> deb, thr |-> thr]
Plain(l) == [id |-> l.id, kind |-> "plain", ls |-> <<l>>, mid |-> l, end |-> l]
No == Sel("none", "")
S1 == Plain(L0("s1", "s1", "plain", "view", Sel("id", "A"), "click", 3, <<A("a", "v", 0, "a"), A("b", "dep", 1, "a")>>, TRUE, FALSE, FALSE))
S2 == [id |-> "s2", kind |-> "between", ls |-> <<L0("s2", "s2#start", "start", "view", Sel("name", "n1"), "pointerdown", NoFilt, <<>>, FALSE, FALSE, FALSE)>>,
       mid |-> L0("s2", "s2#mid", "mid", "view", No, "pointermove", NoFilt, <<A("a", "v", 0, "a")>>, FALSE, FALSE, FALSE),
       end |-> L0("s2", "s2#end", "end", "window", No, "pointerup", NoFilt, <<>>, FALSE, FALSE, FALSE)]
S3 == LET l == L0("s3", "s3#0", "plain", "view", Sel("type", "rect"), "click", NoFilt, <<A("", "v", 0, "a")>>, FALSE, TRUE, FALSE) IN
      [id |-> "s3", kind |-> "merge", ls |-> <<l, [l EXCEPT !.u = "s3#1", !.ty = "pointermove", !.sel = No]>>, mid |-> [l EXCEPT !.id = "", !.u = ""], end |-> l]
S4 == Plain(L0("s4", "s4", "plain", "view", No, "click", NoFilt, <<A("b", "v", 0, "a")>>, FALSE, FALSE, TRUE))
S5 == [S2 EXCEPT !.id = "s5", !.ls = <<[S2.ls[1] EXCEPT !.id = "s5", !.u = "s5#start", !.sel = No]>>,
       !.mid = [@ EXCEPT !.id = "s5", !.u = "s5#mid", !.acts = <<A("b", "const", 3, "a")>>], !.end = [@ EXCEPT !.id = "s5", !.u = "s5#end"]]
LM == L0("l1", "l1", "raw", "mark", Sel("id", "B"), "click", NoFilt, <<A("", "v", 0, "a")>>, FALSE, FALSE, FALSE)
E(ty, m, k) == [op |-> "ev", ty |-> ty, m |-> m, k |-> k, canc |-> TRUE]
Ops == {[op |-> "bind", sp |-> sp] : sp \in {S1, S2, S3, S4, S5}} \cup {[op |-> "listen", l |-> LM], [op |-> "unlisten", id |-> "l1"]}
  \cup {E(ty, t[1], t[2]) : ty \in {"click", "pointermove", "pointerdown"}, t \in {<<"A", "p">>, <<"A", "q">>, <<"B", "p">>, <<"", "">>}}
  \cup {[op |-> "win", ty |-> "pointerup"], [op |-> "tick"], [op |-> "sig", s |-> "a", v |-> 7]}
Bound(s, id) == \E l \in Range(s.ls) : l.id = id
Enabled(s, e) == CASE e.op = "bind" -> e.sp.id \notin DOMAIN s.specs
                   [] e.op = "listen" -> ~Bound(s, e.l.id)
                   [] e.op = "unlisten" -> Bound(s, e.id)
                   [] OTHER -> TRUE
Cfg(ev) == [sig |-> [a |-> 0, b |-> 0], marks |-> Marks0, ev |-> ev]
Init == \E ev \in Evs : st = Events0(Cfg(ev)) /\ n = 0 /\ hist = IF Emit THEN <<[op |-> "reset", cfg |-> Cfg(ev)]>> ELSE <<>>
Next == n < MaxOps /\ \E e \in Ops : Enabled(st, e) /\ st' = [EventsStep(st, e) EXCEPT !.out = <<>>] /\ n' = n + 1 /\ hist' = IF Emit THEN Append(hist, e) ELSE hist
Spec == Init /\ [][Next]_<<st, n, hist>>
View == <<st, n>>
Inv == EventsInv(st)
MidBound(id) == \E l \in Range(st.ls) : l.id = id /\ l.role = "mid"
(* the stream of a between specification is bound exactly between its events, as far as it is permitted *)
Between == \A id \in {"s2", "s5"} : MidBound(id) <=> (id \in DOMAIN st.btw /\ st.btw[id] = "on" /\ Permit(st, "pointermove"))
(* only bound streams wait, nothing waits after the timers ran, and a second tick does nothing *)
Timers == /\ \A q \in Range(st.pend) : \E l \in Range(st.ls) : l.u = q.u
          /\ LET s1 == EventsStep(st, [op |-> "tick"]) IN s1.pend = <<>> /\ s1.hot = <<>> /\ EventsStep(s1, [op |-> "tick"]).out = <<>>
(* an event changes signals only through callbacks, and a stream at most once per action *)
Calls == \A e \in Ops : e.op = "ev" =>
           LET s1 == EventsStep(st, e) IN (s1.out = <<>> => s1.sig = st.sig) /\
             \A o \in Range(s1.out) : Cardinality({i \in 1..Len(s1.out) : s1.out[i] = o}) <= Cardinality({l \in Range(st.ls) : l.id = o.u})
EmitAll == n' = MaxOps => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
==============================================================================
