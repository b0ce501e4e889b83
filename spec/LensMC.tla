------------------------------- MODULE LensMC -------------------------------
(* Bounded model: fish-eyes with every option are started, moved, ended, removed and bound again.                       *)
EXTENDS Lens, Json, CSV, IOUtils
CONSTANTS MaxLen, Deep, Emit
Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
VARIABLES st, hist, k
Vs == {0, 7, 15, 22, 30, 41, 50, 58, 66, 75, 83, 94, 100}
RV(n, i) == RandomElement({v \in Vs : n + i > 0})
RowsOf(n) == IF Emit THEN LET m == RandomElement({x \in 1..4 : n > 0}) IN [i \in 1..m |-> [k |-> <<"a", "b", "c", "d">>[i], x |-> RV(n, i), y |-> RV(n, i)]]
             ELSE <<[k |-> "a", x |-> 50, y |-> 22], [k |-> "b", x |-> 58, y |-> 30]>>
Trigs == {<<"pointerenter", "pointermove", "pointerleave", "">>, <<"pointerdown", "pointermove", "pointerup", "">>, <<"pointerdown", "pointermove", "pointerup", "dblclick">>, <<"pointerenter", "pointermove", "pointerleave", "click">>}
Cfgs(n) == {[rows |-> RowsOf(n), ex |-> x[1], ey |-> x[2], sx |-> x[3], sy |-> x[4], dx |-> a, dy |-> b, rx |-> r[1], qx |-> r[2], ry |-> q[1], qy |-> q[2], sel |-> l, on |-> t[1], upd |-> t[2], end |-> t[3], off |-> t[4], win |-> w] :
             x \in Pick({y \in {<<TRUE, TRUE, TRUE, TRUE>>, <<TRUE, FALSE, TRUE, TRUE>>, <<FALSE, TRUE, TRUE, TRUE>>, <<TRUE, TRUE, TRUE, FALSE>>, <<TRUE, TRUE, FALSE, TRUE>>} : n > 0}),
             a \in Pick({y \in (IF Emit THEN {None, 1000, 3500} ELSE {None}) : n > 0}), b \in Pick({y \in (IF Emit THEN {None, 1500, 3000} ELSE {1500}) : n > 0}),
             r \in Pick({y \in (IF Emit THEN {<<None, None>>, <<30000, None>>, <<None, 300>>, <<50000, 500>>} ELSE {<<None, None>>, <<30000, None>>}) : n > 0}), q \in Pick({y \in (IF Emit THEN {<<None, None>>, <<40000, None>>, <<None, 400>>} ELSE {<<None, 400>>}) : n > 0}),
             l \in Pick({y \in BOOLEAN : n > 0}), t \in Pick({y \in Trigs : n > 0}), w \in Pick({y \in {"", "half"} : n > 0})}
Ts == {"S", "T", "stage"}
Pxs == IF Emit THEN {0, 21000, 60000, 100000, 117500, 163000, 200000, 230000, 310000} ELSE {100000, 310000}
Pys == IF Emit THEN {0, 13000, 40000, 70000, 78000, 100000, 140000, 210000} ELSE {70000, 140000}
Do(e) == st' = LensStep(st, e) /\ k' = k + 1 /\ hist' = (IF Emit THEN Append(hist, e) ELSE <<e>>)
Init == \E i \in (IF Emit THEN 1..400 ELSE {1}) : \E c \in Cfgs(i) : st = Lens0(c) /\ k = 0 /\ hist = <<[op |-> "reset", cfg |-> c]>>
Ev(ty, ts) == \E t \in Pick({x \in ts : k >= 0}), x \in Pick({y \in Pxs : k >= 0}), y \in Pick({z \in Pys : k >= 0}) : Do([op |-> "ev", ty |-> ty, t |-> t, px |-> x, py |-> y])
Mine == IF st.cfg.sel THEN {"S"} ELSE {"stage"}
Step ==
  \/ Ev(st.cfg.on, IF Emit THEN Mine ELSE Ts)
  \/ Ev(st.cfg.upd, IF Emit THEN Mine ELSE Ts)
  \/ Ev(st.cfg.upd, Ts)
  \/ \E ty \in {st.cfg.on, st.cfg.end, IF st.cfg.off = "" THEN st.cfg.end ELSE st.cfg.off} : Ev(ty, Ts)
  \/ Emit /\ Do([op |-> "rows", rows |-> RowsOf(k + 1)])
  \/ st.bound /\ (Emit => RandomElement({x \in 1..3 : k >= 0}) = 1) /\ Do([op |-> "unbind"])
  \/ ~st.bound /\ Do([op |-> "bind"])
Next == (k < MaxLen - (IF Emit THEN 1 ELSE 0) /\ Step) \/ (Emit /\ k = MaxLen - 1 /\ Do([op |-> "rows", rows |-> RowsOf(k + 1)]))
Spec == Init /\ [][Next]_<<st, hist, k>>
View == <<st, k>>
LensOK == LensInv(st)
EmitAll == (k' = MaxLen) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
=============================================================================
