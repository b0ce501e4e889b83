------------------------------- MODULE SiftMC -------------------------------
(* Bounded model of filter interactions: which order filters were bound in matters only within a kind, a removed filter  *)
(* leaves no trace, and a filter without a value keeps every row.                                                       *)
EXTENDS Sift, Json, CSV, IOUtils
CONSTANTS MaxOps, Deep, Emit
VARIABLES st, hist, k
R0(a, v, c) == [k |-> a, v |-> v, c |-> c]
A1 == R0("a", 1, "x")  A2 == R0("b", 4, "y")  A3 == R0("c", 6, "x")  A4 == R0("d", 8, "z")
D1 == <<A1, A2, A3, A4>>
D2 == <<A4, R0("e", 3, "y"), A1>>
Ps == <<<<A1>>, <<A2, A3>>, <<A4, A2, A1>>>>
Cfgs == {[d |-> [D |-> D1, E |-> D2], linked |-> l, dx |-> 8, ps |-> Ps] : l \in (IF Emit \/ Deep THEN BOOLEAN ELSE {TRUE})}
Do(e) == st' = SiftStep(st, e) /\ (hist' = IF Emit THEN Append(hist, e) ELSE <<e>>) /\ k' = k + 1
Ev(c, lo, hi, set, row, ev) == [op |-> "fire", comp |-> c, lo |-> lo, hi |-> hi, set |-> set, row |-> row, ev |-> ev]
Comps == IF Emit THEN {"legend", "color", "slider", "slider2", "zoom", "scroll", "player", "drill", "up"} ELSE IF Deep THEN {"legend", "slider", "zoom", "player", "up", "drill"} ELSE {"legend", "slider", "player", "up"}
Modes(c) == CASE c = "player" -> {"rows", "fn"} [] c \in {"drill", "up"} -> {"fn"} [] OTHER -> IF Emit THEN {"field", "fn", "first", "both"} ELSE {"field", "first"}
(* at most one of drill-down and roll-up, and at most two filters (three when generating) *)
Room(c) == /\ Len(st.fs) < (IF Emit THEN 3 ELSE 2) /\ \A i \in 1..Len(st.fs) : ~({st.fs[i].comp, c} \subseteq {"drill", "up"})
Ids == IF Emit THEN {"f1", "f2", "f3", "f4"} ELSE {"f1", "f2"}
Add == \E c \in Comps, on \in {"D", "E"}, i \in Ids, off \in BOOLEAN : \E m \in Modes(c) :
         /\ Room(c) /\ (\A j \in 1..Len(st.fs) : st.fs[j].id # i) /\ (off => c = "up") /\ (Emit \/ i = "f1" \/ Len(st.fs) > 0)
         /\ Do([op |-> "add", id |-> i, comp |-> c, on |-> on, mode |-> m, off |-> off])
Rem == \/ \E i \in 1..Len(st.fs) : Do([op |-> "rem", how |-> "id", id |-> st.fs[i].id, type |-> ""]) \/ Do([op |-> "rem", how |-> "type", id |-> "", type |-> TypeOf(st.fs[i].comp)])
       \/ Len(st.fs) > 1 /\ Do([op |-> "rem", how |-> "all", id |-> "", type |-> ""])
Live(c) == \E i \in 1..Len(st.fs) : st.fs[i].comp = c
ShownRows == Range(ShownD(st))
Fire == \E c \in Comps : (Live(c) \/ (Emit /\ c # "drill" /\ c # "up")) /\
  CASE c = "legend" -> \E q \in {<<"x">>, <<>>, <<"y", "z">>} : Do(Ev(c, 0, 0, q, NoVal.row, "on"))
    [] c \in {"color", "slider", "slider2"} -> \E q \in {<<1, 4>>, <<4, 9>>} : Do(Ev(c, q[1], q[2], <<>>, NoVal.row, "on"))
    [] c \in {"zoom", "scroll"} -> \E q \in {<<0, 4>>, <<2, 8>>} : Do(Ev(c, q[1], q[2], <<>>, NoVal.row, "on"))
    [] c = "player" -> \E q \in 0..2 : Do(Ev(c, q, 0, <<>>, NoVal.row, "on"))
    [] c = "drill" -> \E r \in ShownRows : Do(Ev(c, 0, 0, <<>>, r, "on"))
    [] OTHER -> (\E r \in ShownRows : Do(Ev(c, 0, 0, <<>>, r, "on"))) \/ Do(Ev(c, 0, 0, <<>>, NoVal.row, "off"))
Data == \E q \in {D1, D2} : \E kk \in {"D", "E"} : st.d[kk] # q /\ Do([op |-> "data", k |-> kk, v |-> q])
Run == k > 0 /\ Emit /\ hist[Len(hist)].op # "run" /\ Do([op |-> "run"])
Change == k < MaxOps /\ (Add \/ Rem \/ Fire \/ Data \/ Run)
(* removing everything shows the rows of the user again *)
Restored == LET z == SiftStep(st, [op |-> "rem", how |-> "all", id |-> "", type |-> ""]) IN ShownD(z) = st.d["D"]
(* the order of binding is irrelevant between kinds *)
Commutes == Len(st.fs) = 2 /\ Rank(st.fs[1].comp) # Rank(st.fs[2].comp) => LET z == [st EXCEPT !.fs = <<@[2], @[1]>>] IN ShownD(z) = ShownD(st) /\ ShownE(z) = ShownE(st)
(* a filter on E never changes D *)
Local == ShownD([st EXCEPT !.fs = Filter(@, LAMBDA f : f.on = "D")]) = ShownD(st)
Obs(s) == [op |-> "run", D |-> Keys(ShownD(s)), E |-> Keys(ShownE(s))]
Sound == Bad(st, Obs(st)) = {}
Stale == [][~Emit => (Obs(st) # Obs(st') => Bad(st', Obs(st)) # {})]_<<st, hist, k>>
SiftIn == SiftInv(st)
Init == \E c \in Cfgs : st = Sift0(c) /\ hist = <<[op |-> "reset", cfg |-> c]>> /\ k = 0
Next == Change
Spec == Init /\ [][Next]_<<st, hist, k>>
View == <<st, k>>
EmitAll == (k' = MaxOps /\ k' > k) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
=============================================================================
