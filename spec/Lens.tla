-------------------------------- MODULE Lens --------------------------------
(* A fish-eye over a chart: from its start event to its end the scales of its dimensions are distorted around the       *)
(* pointer. What lies at the pointer stays there, what lies within the radius is pushed outwards but not past the       *)
(* radius, all else stays. The end event, the event that triggers it off or its removal gives the scales back.          *)
EXTENDS Util
None == -99999999
K == 1000
W == 200
H == 100
Dims == {"x", "y"}
Size(d) == IF d = "x" THEN W ELSE H
Field(r, d) == IF d = "x" THEN r.x ELSE r.y
(* where the scale alone puts a value of 0..100: x runs up, y runs down; x may show a window of its range only *)
Bare(c, v, d) == IF d = "y" THEN (100 - v) * K ELSE IF c.win = "half" THEN 4 * v * K ELSE 2 * v * K
Has2(c, d) == IF d = "x" THEN c.ex /\ c.sx ELSE c.ey /\ c.sy
Dist(c, d) == LET v == IF d = "x" THEN c.dx ELSE c.dy IN IF v = None THEN 2000 ELSE v
Radius(c, d) == LET r == IF d = "x" THEN c.rx ELSE c.ry  q == IF d = "x" THEN c.qx ELSE c.qy IN IF r # None THEN r ELSE IF q # None THEN Size(d) * q ELSE Size(d) * 100
Lens0(cfg) == [cfg |-> cfg, rows |-> cfg.rows, bound |-> TRUE, act |-> FALSE, f |-> [d \in Dims |-> None]]
Aim(s, e) == [d \in Dims |-> IF Has2(s.cfg, d) THEN (IF d = "x" THEN e.px ELSE e.py) ELSE None]
Free(s) == [d \in Dims |-> None]
Inside(s, e) == IF s.cfg.sel THEN e.t = "S" ELSE e.px >= 0 /\ e.px <= 300 * K /\ e.py >= 0 /\ e.py <= 200 * K
On(s, e) == IF s.cfg.sel THEN e.t = "S" ELSE e.t = "stage"
LensStep(s, e) ==
  IF e.op = "rows" THEN [s EXCEPT !.rows = e.rows]
  ELSE IF e.op = "unbind" THEN [s EXCEPT !.bound = FALSE, !.act = FALSE, !.f = Free(s)]
  ELSE IF e.op = "bind" THEN [s EXCEPT !.bound = TRUE]
  ELSE IF e.op # "ev" \/ ~s.bound THEN s
  ELSE IF e.ty = s.cfg.on THEN (IF On(s, e) /\ ~s.act THEN [s EXCEPT !.act = TRUE, !.f = Aim(s, e)] ELSE s)
  ELSE IF e.ty = s.cfg.upd THEN (IF Inside(s, e) /\ s.act THEN [s EXCEPT !.f = Aim(s, e)] ELSE s)
  ELSE IF e.ty = (IF s.cfg.off = "" THEN s.cfg.end ELSE s.cfg.off) THEN (IF On(s, e) /\ s.act THEN [s EXCEPT !.act = FALSE, !.f = Free(s)] ELSE s)
  ELSE s
(* ---- what is drawn ---- *)
Focus(s, d) == Max2(0, Min2(s.f[d], Size(d) * K))
Put(s, d, bare, p) ==
  IF s.f[d] = None THEN Abs(p - bare) <= 1
  ELSE LET f == Focus(s, d)  R == Radius(s.cfg, d)  del == Abs(bare - f) IN
    IF del >= R THEN Abs(p - bare) <= 1
    ELSE IF del = 0 THEN Abs(p - f) <= 1
    ELSE (p > f) = (bare > f) /\ Abs(p - f) > del - 2 /\ Abs(p - f) <= R + 1
Pos(o, d) == IF d = "x" THEN o.x ELSE o.y
RowOf(s, k) == s.rows[CHOOSE i \in 1..Len(s.rows) : s.rows[i].k = k]
Drawn(s, d, obs) ==
  /\ \A i \in 1..Len(obs) : Put(s, d, Bare(s.cfg, Field(RowOf(s, obs[i].k), d), d), Pos(obs[i], d))
  /\ \A i, j \in 1..Len(obs) : Bare(s.cfg, Field(RowOf(s, obs[i].k), d), d) < Bare(s.cfg, Field(RowOf(s, obs[j].k), d), d) => Pos(obs[i], d) <= Pos(obs[j], d)
(* the setting the scale tells; a scale the fish-eye has not been given has none *)
Setting(s, d) == IF s.f[d] = None THEN [on |-> FALSE, dist |-> None, r |-> None, q |-> None, f |-> None]
                 ELSE [on |-> TRUE, dist |-> Dist(s.cfg, d), r |-> IF d = "x" THEN s.cfg.rx ELSE s.cfg.ry, q |-> IF d = "x" THEN s.cfg.qx ELSE s.cfg.qy, f |-> s.f[d]]
Wrong(s, e) ==
  LET q == LensStep(s, e) IN
  IF {e.obs[i].k : i \in 1..Len(e.obs)} # {q.rows[i].k : i \in 1..Len(q.rows)} \/ Len(e.obs) # Len(q.rows) THEN {"rows"}
  ELSE {d \in Dims : ~Drawn(q, d, e.obs)} \cup {d \o " setting" : d \in {x \in Dims : e.set[x] # Setting(q, x)}}
LensAccept(s, e) == e.op \in {"ev", "rows", "bind", "unbind"} /\ Wrong(s, e) = {}
LensExplain(s, e) == IF e.op = "threw" THEN [wrong |-> {"threw"}, f |-> s.f] ELSE [wrong |-> Wrong(s, e), f |-> LensStep(s, e).f]
LensInv(s) == /\ ~s.bound => ~s.act
              /\ ~s.act => \A d \in Dims : s.f[d] = None
              /\ s.act => \A d \in Dims : (s.f[d] # None) = Has2(s.cfg, d)
=============================================================================
