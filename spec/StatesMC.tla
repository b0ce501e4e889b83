------------------------------ MODULE StatesMC ------------------------------
EXTENDS States, Json, CSV, IOUtils
CONSTANTS MaxOps, Emit
VARIABLES st, n, hist
K(c) == [t |-> "const", c |-> c]
Cfg(sort, ms) == [enc |-> [x |-> [t |-> "field"], y |-> [t |-> "sum", c |-> 1]],
  st |-> [hasf |-> TRUE, by |-> [h |-> [x |-> K(40), y |-> K(41)], s |-> [x |-> K(50), size |-> K(51)]]],
  sort |-> sort, ms |-> ms, sig |-> 2]
Cfgs == {Cfg(so, ms) : so \in {"none", "desc"}, ms \in {[t |-> "none", q |-> <<>>], [t |-> "const", q |-> <<"s">>]}}
A1 == [y |-> K(60)]
A2 == [x |-> K(61), lineWidth |-> K(62)]
Rows1 == <<[k |-> "a", v |-> 3]>>
Rows2 == <<[k |-> "a", v |-> 4]>>
U(nm, on, has, a) == [n |-> nm, on |-> on, has |-> has, a |-> a]
Ops == {[op |-> "use", k |-> "a", q |-> q] : q \in {<<>>, <<"h">>, <<"h", "s">>}}
  \cup {[op |-> "add", k |-> "a", q |-> q] : q \in {<<"h">>, <<"s", "f">>, <<"z">>}}
  \cup {[op |-> "rt", k |-> "a", n |-> nm, a |-> a] : nm \in {"h", "z"}, a \in {A1, A2}}
  \cup {[op |-> "del", k |-> "a", q |-> q] : q \in {<<"h">>, <<"z", "s">>}}
  \cup {[op |-> "upd", k |-> "a", u |-> u] : u \in {<<U("h", TRUE, FALSE, A1), U("s", FALSE, FALSE, A1)>>, <<U("h", FALSE, FALSE, A1), U("z", FALSE, TRUE, A1)>>}}
  \cup {[op |-> "clear", k |-> "a"], [op |-> "run"], [op |-> "rows", rows |-> Rows2]}
Start(c) == StatesStep(StatesStep(States0(c), [op |-> "rows", rows |-> Rows1]), [op |-> "run"])
Init == \E c \in Cfgs : st = Start(c) /\ n = 0 /\
  hist = IF Emit THEN <<[op |-> "reset", cfg |-> c], [op |-> "rows", rows |-> Rows1], [op |-> "run"]>> ELSE <<>>
Next == n < MaxOps /\ \E e \in Ops : st' = StatesStep(st, e) /\ n' = n + 1 /\ hist' = IF Emit THEN Append(hist, e) ELSE hist
Spec == Init /\ [][Next]_<<st, n, hist>>
View == <<st, n>>
Inv == StatesInv(st)
(* no state is active twice, active states respect the order, what was removed contributes nothing *)
El == st.els[1]
Safe == /\ Cardinality(Range(El.st)) = Len(El.st)
        /\ El.st = Sorted(st, El.st)
        /\ \A c \in Channels : Attrs(st, El)[c] # NAI => c \in DOMAIN st.enc \/ \E i \in 1..Len(El.st) : c \in DOMAIN Contribution(st, El, El.st[i])
(* removing a state really removes it and its runtime attributes; adding an active state changes nothing *)
Laws == \A nm \in {"h", "s", "z"} :
          LET r == Remove(st, El, <<nm>>) IN
          /\ ~In(r.st, nm) /\ (In(El.st, nm) => ~HasRt(r, nm))
          /\ In(El.st, nm) => Add(st, El, <<nm>>) = El
          /\ Attrs(st, Clear(El)) = Attrs(st, [El EXCEPT !.st = <<>>])
EmitAll == n' = MaxOps => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
==============================================================================
