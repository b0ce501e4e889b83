------------------------------ MODULE NudgeMC ------------------------------
(* Bounded model of a mark under its transforms while data, scale, signal, transforms and states change.                *)
EXTENDS Nudge, Json, CSV, IOUtils
CONSTANTS MaxLen, Deep, Emit
Pick(S) == IF Emit THEN {RandomElement(S)} ELSE S
VARIABLES st, hist, k
R(kk, c, g, v, u, s, vis, fs) == [k |-> kk, c |-> c, g |-> g, v |-> v, u |-> u, p |-> 3 * v, s |-> s, vis |-> vis, fs |-> fs]
RowSets == {
  <<R("a", 0, "p", 10, 30, 8, TRUE, FALSE), R("b", 0, "q", 12, 20, 8, TRUE, FALSE), R("c", 1, "p", 40, 44, 12, TRUE, FALSE)>>,
  <<R("c", 1, "q", 41, 9, 12, TRUE, FALSE), R("a", 1, "r", 10, 30, 4, FALSE, FALSE), R("b", 2, "p", 44, 20, 8, TRUE, TRUE), R("d", 0, "q", 47, 51, 8, TRUE, FALSE)>>,
  <<R("b", 2, "p", 5, 5, 20, TRUE, FALSE)>>, <<>>}
No == [t |-> "", ch |-> "", by |-> "", gs |-> FALSE, gap |-> [pct |-> FALSE, v |-> 0], cat |-> [pct |-> TRUE, v |-> 20], max |-> None, min |-> None, bw |-> None, bh |-> None, wr |-> None, hr |-> None, rs |-> FALSE,
       al |-> "", dir |-> 0, delta |-> None, ds |-> FALSE, mul |-> 2, rad |-> "", sort |-> FALSE]
Dodges(cfg) == {[No EXCEPT !.t = "dodge", !.by = by, !.gs = gs, !.max = mx, !.min = mn, !.cat = ct, !.gap = gp] :
            by \in {"g", ""}, gs \in BOOLEAN, mx \in {None, 6}, mn \in {None, 9}, ct \in {[pct |-> TRUE, v |-> 20], [pct |-> FALSE, v |-> 4]}, gp \in {[pct |-> FALSE, v |-> 2], [pct |-> TRUE, v |-> 10]}}
Jits == {[No EXCEPT !.t = t, !.bw = bw, !.hr = 30, !.wr = wr, !.rs = rs] : t \in {"jit", "jitx", "jity"}, bw \in {None, 10}, wr \in {None, 70}, rs \in BOOLEAN}
Syms == {[No EXCEPT !.t = "sym", !.ch = ch, !.al = al] : ch \in {"", "x"}, al \in {"", "min", "max"}}
Overs == {[No EXCEPT !.t = "over", !.dir = d, !.delta = dl, !.ds = ds, !.mul = mu, !.rad = rd, !.by = by, !.sort = so] :
            d \in {0, 1, 2}, dl \in {None, 3}, ds \in BOOLEAN, mu \in {0, 2}, rd \in {"", "F"}, by \in {"", "g"}, so \in {FALSE}}
         \cup {[No EXCEPT !.t = "over", !.dir = 1, !.delta = 3, !.sort = TRUE]}
Cfg(mt, ch, band, wm, om, gb, stt) == [mt |-> mt, ch |-> ch, band |-> band, wm |-> wm, om |-> om, gb |-> gb, ve |-> ~stt, st |-> stt, sv |-> 7, rv |-> <<250, 800, 0>>, vw |-> 300, vh |-> 200, sig |-> 2, tr |-> <<>>,
       sc |-> [n |-> 3, bw |-> 20, base |-> 10, rev |-> FALSE], rows |-> CHOOSE rs \in RowSets : Len(rs) = 3]
Cfgs == {Cfg(mt, ch, band, wm, om, gb, stt) : mt \in {"rect", "symbol", "rule"}, ch \in {"x", "y"}, band \in BOOLEAN, wm \in {"w", "x1", ""}, om \in {"u", "h"}, gb \in BOOLEAN, stt \in BOOLEAN}
Trs(c) == IF c.mt = "rect" /\ c.wm = "" THEN {<<t>> : t \in Dodges(c)} ELSE {<<>>} \cup {<<t>> : t \in Dodges(c)} \cup (IF c.mt = "symbol" THEN {<<t>> : t \in Jits} \cup (IF c.st THEN {} ELSE {<<t>> : t \in Overs}) ELSE {}) \cup (IF c.mt = "rule" THEN {} ELSE {<<t>> : t \in Syms})
          \cup {<<t, u>> : t \in {x \in Dodges(c) : x.max = None /\ x.min = None}, u \in {x \in Syms : c.mt # "rule" /\ (x.ch = "x") # (c.ch = "x")}}
Ok(c) == (c.mt # "rect" => c.wm = "w") /\ (c.mt # "rect" => c.om = "u") /\ ((~Emit /\ ~Deep) => (IF c.mt = "rect" THEN c.wm # "w" /\ c.ch = "x" /\ c.om = "u" ELSE c.gb))
Do(e) == st' = NudgeStep(st, e) /\ k' = k + 1 /\ hist' = (IF Emit THEN Append(hist, e) ELSE <<e>>)
Init == \E seq \in (IF Emit THEN 1..250 ELSE {1}) : \E c0 \in Pick({c \in Cfgs : Ok(c) /\ seq > 0}) : \E tr \in (IF c0.mt = "rect" /\ c0.wm = "" THEN {<<CHOOSE t \in Dodges(c0) : t.max = None>>} ELSE {<<>>}) : LET c == [c0 EXCEPT !.tr = tr] IN st = Nudge0(c) /\ k = 0 /\ hist = <<[op |-> "reset", cfg |-> c]>>
Step ==
  \/ \E r \in Pick(RowSets) : Do([op |-> "rows", rows |-> r])
  \/ \E sc \in Pick({[n |-> 3, bw |-> b, base |-> z, rev |-> rv] : b \in {20, 31}, z \in {0, 10}, rv \in BOOLEAN}) : (Deep \/ Emit \/ sc.base = 0) /\ Do([op |-> "sc", sc |-> sc])
  \/ \E v \in Pick({0, 2, 5}) : Do([op |-> "sig", v |-> v])
  \/ \E tr \in Pick(Trs(st.cfg)) : Do([op |-> "tr", tr |-> tr])
  \/ st.cfg.st /\ st.rows # <<>> /\ \E i \in Pick(1..Len(st.rows)), v \in Pick(BOOLEAN) : Do([op |-> "state", k |-> st.rows[i].k, v |-> v])
Next == (k < MaxLen - (IF Emit THEN 1 ELSE 0) /\ Step) \/ (Emit /\ k = MaxLen - 1 /\ Do([op |-> "sig", v |-> 1]))
Spec == Init /\ [][Next]_<<st, hist, k>>
View == <<st, k>>
(* ---- laws ---- *)
NudgeOK == NudgeInv(st)
D == Drawn(st)
Tr == IF Len(st.tr) = 1 THEN st.tr[1] ELSE No
(* elements of one band and of different groups do not cover each other under dodge, and stay within their band *)
DodgeApart == (Tr.t = "dodge" /\ Tr.min = None /\ Tr.by = "g" /\ st.cfg.band /\ st.cfg.mt = "rect") =>
  LET sp(i) == IF st.cfg.ch = "x" THEN D[i].x ELSE D[i].y IN
  \A i, j \in 1..Len(D) : /\ (st.rows[i].c = st.rows[j].c /\ st.rows[i].g # st.rows[j].g /\ i < j) => (sp(i)[2] <= sp(j)[1] + 3 \/ sp(j)[2] <= sp(i)[1] + 3)
                          /\ sp(i)[1] >= Start(st, st.rows[i]) - 3 /\ sp(i)[2] <= Start(st, st.rows[i]) + Bw(st) + 3
(* jitter keeps its elements within half a band of their place *)
JitterNear == (Tr.t = "jitx" /\ st.cfg.band /\ st.cfg.ch = "x" /\ Tr.bw = None) => \A i \in 1..Len(D) : Abs(D[i].x[1] - Start(st, st.rows[i])) <= Bw(st) \div 2
(* all middles agree under symmetry, lengths are kept *)
SymAgree == (Tr.t = "sym" /\ Tr.ch = "" /\ st.on = {} /\ (st.cfg.mt = "symbol" \/ st.cfg.om = "u")) => (st.cfg.ch = "x" => \A i, j \in 1..Len(D) : D[i].y[1] + D[i].y[2] = D[j].y[1] + D[j].y[2])
(* shown neighbours keep their distance, unless one of them must be shown; the first element is never hidden *)
OverApart == (Tr.t = "over" /\ Tr.dir = 1 /\ Tr.by = "" /\ Tr.rad = "" /\ Tr.delta # None /\ ~Tr.ds /\ Tr.sort) =>
  \A i, j \in 1..Len(D) : (i # j /\ D[i].vis /\ D[j].vis /\ ~st.rows[i].fs /\ ~st.rows[j].fs) => Abs(D[i].x[1] - D[j].x[1]) >= M * Tr.delta
OverSome == (Tr.t = "over" /\ \E i \in 1..Len(D) : Shown0(st, i)) => \E i \in 1..Len(D) : D[i].vis
EmitAll == (k' = MaxLen) => CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.OPSOUT)
=============================================================================
