-------------------------------- MODULE Anim --------------------------------
(* Animation life cycle of the marks of one view.                            *)
(*   els[m]  : elements in the scene, by key: [ds, prev, s, x]                *)
(*             ds: enter/update/exit; prev: state of the animation started    *)
(*             last ("" = none since the last clearing); s: custom state      *)
(*   an      : running animations [m, k, st, tag, age, total]                 *)
(* When an animation ends is decided by the clock of the renderer; the        *)
(* specification only bounds it (Tol).                                        *)
EXTENDS Util
Tol == 60
Exit == "exit"
Anim0(cfg) == [conf |-> cfg.conf, next |-> cfg.conf, els |-> [m \in DOMAIN cfg.conf |-> <<>>], an |-> {}, on |-> [m \in DOMAIN cfg.conf |-> TRUE],
               dis |-> [m \in DOMAIN cfg.conf |-> {}], paused |-> FALSE, ever |-> FALSE]
Old(s, m, k) == SelectSeq(s.els[m], LAMBDA e : e.k = k)
StateOf(el) == IF el.s # "" /\ el.ds # Exit THEN el.s ELSE el.ds
Anims(s, m, k) == {a \in s.an : a.m = m /\ a.k = k}
AnimsOf(s, m) == {a \in s.an : a.m = m}
Total(c, n) == c.start + c.n * (c.delay + c.dur + c.after + c.obo * (n - 1))

(* ---- join of new rows: re-entering elements lose their exit animations *)
Join(s, m, rows) ==
  LET ks == {rows[i].k : i \in 1..Len(rows)}
      new(r) == LET o == Old(s, m, r.k) IN
        [k |-> r.k, s |-> r.s, x |-> r.x, mix |-> Len(o) > 0 /\ o[1].mix, ds |-> IF Len(o) = 0 \/ o[1].ds = Exit THEN "enter" ELSE "update", prev |-> IF Len(o) = 0 THEN "" ELSE o[1].prev]
      gone == SelectSeq(s.els[m], LAMBDA e : e.k \notin ks)
  IN Map(rows, new) \o Map(gone, LAMBDA e : [e EXCEPT !.ds = Exit])
(* elements whose animations are stopped because their state changed *)
StopByState(s, m, el) == \E i \in 1..Len(s.conf[m]) : LET c == s.conf[m][i] IN c.stop /\ c.st = el.prev /\ el.prev # el.ds
Cleared(s, m, els) == {els[i].k : i \in {j \in 1..Len(els) : els[j].prev # "" /\
    (StopByState(s, m, els[j]) \/ (els[j].ds = Exit /\ els[j].prev # Exit))}}
Runs(s, m, c, el, force) == ~(el.ds = Exit /\ force /\ \E a \in Anims(s, m, el.k) : TRUE) /\ StateOf(el) \notin s.dis[m] /\ (force \/ StateOf(el) = c.st)
(* what a configuration starts: set of running animations *)
Start(s, m, c, els) == {[m |-> m, k |-> els[i].k, st |-> c.st, tag |-> c.tag, id |-> c.id, fx |-> c.fx, age |-> 0, total |-> Total(c, Len(els))] : i \in 1..Len(els)}
Confs(s, m, st) == SelectSeq(s.conf[m], LAMBDA c : c.st = st)
Key(a) == <<a.m, a.k, a.tag>>
Keys(S) == {Key(a) : a \in S}
(* an animation replaces the one of the same configuration slot on the same element *)
Slots(S) == {<<a.m, a.k, a.id>> : a \in S}
Started(s, m, confs, els, force, busy) ==
  UNION {LET c == confs[i] IN Start(s, m, c, SelectSeq(els, LAMBDA el : ~(el.ds = Exit /\ el.k \in busy) /\ StateOf(el) \notin s.dis[m] /\ (force \/ StateOf(el) = c.st)))
         : i \in 1..Len(confs)}
(* exiting elements that already run an exit animation are left alone *)
Busy(s, m, els) == {els[i].k : i \in {j \in 1..Len(els) : els[j].ds = Exit /\ Anims(s, m, els[j].k) # {}}}
LastState(S, m, k, d, confs) == LET mine == {i \in 1..Len(confs) : \E a \in S : a.m = m /\ a.k = k /\ a.tag = confs[i].tag} IN IF mine = {} THEN d ELSE confs[SetMax(mine)].st
Begin(s, m, confs, els, new) ==
  [s EXCEPT !.an = {a \in @ : <<a.m, a.k, a.id>> \notin Slots(new)} \cup new,
            !.els[m] = Map(els, LAMBDA el : [el EXCEPT !.prev = LastState(new, m, el.k, @, confs)])]
(* an animation of x that survives new data still heads for the old x: two writers of one channel, *)
(* the final x of that element is left open *)
Mixed(s, m, new) == [s EXCEPT !.els[m] = Map(@, LAMBDA el : [el EXCEPT !.mix = @ \/ \E a \in Anims(s, m, el.k) : a \notin new /\ a.fx \in {"update", "hop"}])]
Prune(s) == [s EXCEPT !.els = [m \in DOMAIN @ |-> SelectSeq(@[m], LAMBDA e : e.ds # Exit \/ Anims(s, m, e.k) # {})]]

RunPrep(s0, e) ==  \* after the join and the clearing, before starting
  LET s == [s0 EXCEPT !.conf[e.m] = s0.next[e.m]]
      j == Join(s, e.m, e.rows)
      re == {j[i].k : i \in {q \in 1..Len(j) : j[q].ds = "enter"}}   \* re-entered: nothing of the exit continues
      cl == (IF s.on[e.m] THEN Cleared(s, e.m, j) ELSE {}) \cup re
  IN [s EXCEPT !.els[e.m] = Map(j, LAMBDA el : IF el.k \in cl THEN [el EXCEPT !.prev = ""] ELSE el),
               !.an = {a \in @ : ~(a.m = e.m /\ a.k \in cl)}]
(* all transitions but the passing of time: the next state *)
StepTo(s, e) ==
  CASE e.op = "rows" -> LET p == RunPrep(s, e)
                            new == IF s.on[e.m] THEN Started(p, e.m, p.conf[e.m], p.els[e.m], FALSE, Busy(p, e.m, p.els[e.m])) ELSE {}
                        IN Prune(Mixed(Begin(p, e.m, p.conf[e.m], p.els[e.m], new), e.m, new))
    [] e.op = "by" -> LET cs == Confs(s, e.m, e.st) IN
        IF ~s.on[e.m] THEN s ELSE Begin(s, e.m, cs, s.els[e.m], Started(s, e.m, cs, s.els[e.m], TRUE, Busy(s, e.m, s.els[e.m])))
    [] e.op = "imm" -> IF ~s.on[e.m] THEN s ELSE Begin(s, e.m, e.confs, s.els[e.m], Started(s, e.m, e.confs, s.els[e.m], TRUE, Busy(s, e.m, s.els[e.m])))
    [] e.op = "stop" -> Prune([s EXCEPT !.an = {a \in @ : a.m # e.m}])
    [] e.op = "stopBy" -> Prune([s EXCEPT !.an = {a \in @ : ~(a.m = e.m /\ a.st = e.st)}])
    [] e.op = "stopAll" -> Prune([s EXCEPT !.an = {}])
    [] e.op = "off" -> Prune([s EXCEPT !.an = {a \in @ : a.m # e.m}, !.on[e.m] = FALSE])
    [] e.op = "on" -> [s EXCEPT !.on[e.m] = TRUE]
    [] e.op = "dis" -> [s EXCEPT !.dis[e.m] = @ \cup {e.st}]
    [] e.op = "en" -> [s EXCEPT !.dis[e.m] = @ \ {e.st}]
    [] e.op = "conf" -> [s EXCEPT !.next[e.m] = e.confs]   \* takes effect when the mark is evaluated
    [] e.op = "pause" -> [s EXCEPT !.paused = TRUE]
    [] e.op = "resume" -> [s EXCEPT !.paused = FALSE]
    [] OTHER -> s
(* time: those that must have ended, those that may *)
Aged(s, dt) == IF s.paused THEN s ELSE [s EXCEPT !.an = {[a EXCEPT !.age = @ + dt] : a \in @}]
Must(s) == IF s.paused THEN {} ELSE {a \in s.an : a.age >= a.total + Tol}
May(s) == IF s.paused THEN {} ELSE {a \in s.an : a.age + Tol >= a.total}
EndSome(s, E) == Prune([s EXCEPT !.an = @ \ E])
(* ---- events: the recorded sequence folded over the running animations      *)
(* acc: [run: set of keys, ok, s: started keys, e: ended keys, pend: start of a group announced, all: all-animation running] *)
Ev(acc, v) ==
  LET k == <<v.m, v.k, v.tag>>
      same == {x \in acc.run : x[1] = v.m /\ x[3] = v.tag}
      bad == [acc EXCEPT !.ok = FALSE] IN
  CASE ~acc.ok -> acc
    [] v.ev = "allStart" -> IF acc.run = {} /\ ~acc.all THEN [acc EXCEPT !.all = TRUE] ELSE bad
    [] v.ev = "allEnd" -> IF acc.all THEN [acc EXCEPT !.all = FALSE] ELSE bad
    [] v.ev = "start" -> IF same = {} /\ acc.pend = <<>> /\ acc.all THEN [acc EXCEPT !.pend = <<"s", v.m, v.tag>>] ELSE bad
    [] v.ev = "elStart" -> IF k \notin acc.run /\ (same = {} <=> acc.pend = <<"s", v.m, v.tag>>) /\ (same # {} => acc.pend = <<>>)
                           THEN [acc EXCEPT !.run = @ \cup {k}, !.s = @ \cup {k}, !.pend = <<>>] ELSE bad
    [] v.ev = "end" -> IF Cardinality(same) = 1 /\ acc.pend = <<>> THEN [acc EXCEPT !.pend = <<"e", v.m, v.tag>>] ELSE bad
    [] v.ev = "elEnd" -> IF k \in acc.run /\ (Cardinality(same) = 1 <=> acc.pend = <<"e", v.m, v.tag>>) /\ (Cardinality(same) > 1 => acc.pend = <<>>)
                         THEN [acc EXCEPT !.run = @ \ {k}, !.e = @ \cup {k}, !.pend = <<>>] ELSE bad
    [] OTHER -> bad
Folded(s, evs) == Fold(Ev, [run |-> Keys(s.an), ok |-> TRUE, s |-> {}, e |-> {}, pend |-> <<>>, all |-> s.an # {}], evs)
AfterFrame(s, e) == LET a == Aged(s, e.dt) IN EndSome(a, {x \in a.an : Key(x) \in Folded(s, e.ev).e})
AnimStep(s, e) == IF e.op = "frame" THEN AfterFrame(s, e) ELSE StepTo(s, e)
ExpStarted(s, e) == CASE e.op = "rows" -> Keys(IF s.on[e.m] THEN LET p == RunPrep(s, e) IN Started(p, e.m, p.conf[e.m], p.els[e.m], FALSE, Busy(p, e.m, p.els[e.m])) ELSE {})
    [] e.op = "by" -> Keys(IF s.on[e.m] THEN Started(s, e.m, Confs(s, e.m, e.st), s.els[e.m], TRUE, Busy(s, e.m, s.els[e.m])) ELSE {})
    [] e.op = "imm" -> Keys(IF s.on[e.m] THEN Started(s, e.m, e.confs, s.els[e.m], TRUE, Busy(s, e.m, s.els[e.m])) ELSE {})
    [] OTHER -> {}
EventsOk(s, e) == LET f == Folded(s, e.ev)
                      t == AnimStep(s, e) IN
  /\ f.ok /\ f.pend = <<>> /\ f.all = (t.an # {}) /\ f.run = Keys(t.an)
  /\ f.s = ExpStarted(s, e)
  /\ e.op = "frame" => LET a == Aged(s, e.dt) IN Keys(Must(a)) \subseteq f.e /\ f.e \subseteq Keys(May(a))
(* ---- what can be seen: for every element its animations, and its final look when nothing animates it *)
ElObs(s, m, el) == LET r == Anims(s, m, el.k) IN
  [k |-> el.k, ds |-> el.ds, n |-> Cardinality(r), busy |-> r # {}, scene |-> TRUE, x |-> IF r = {} /\ ~el.mix THEN el.x ELSE -1, op |-> IF r = {} THEN 1000 ELSE -1, y |-> IF r = {} THEN 50 ELSE -1]
AnimObs(s) == [els |-> [m \in DOMAIN s.els |-> {ElObs(s, m, s.els[m][i]) : i \in 1..Len(s.els[m])}],
               anim |-> [m \in DOMAIN s.els |-> AnimsOf(s, m) # {}], any |-> s.an # {}]
ObsOf(s, e) == [els |-> [m \in DOMAIN e.obs.els |-> {[o EXCEPT !.x = IF \E i \in 1..Len(s.els[m]) : s.els[m][i].k = o.k /\ s.els[m][i].mix THEN -1 ELSE @] : o \in Range(e.obs.els[m])}], anim |-> e.obs.anim, any |-> e.obs.any]
AnimAccept(s, e) == e.op # "threw" /\ EventsOk(s, e) /\ ObsOf(AnimStep(s, e), e) = AnimObs(AnimStep(s, e))
                    /\ \A m \in DOMAIN e.obs.els : Len(e.obs.els[m]) = Len(AnimStep(s, e).els[m])
AnimExplain(s, e) == IF e.op = "threw" THEN <<>> ELSE [obs |-> AnimObs(AnimStep(s, e)), started |-> ExpStarted(s, e), ev |-> Folded(s, e.ev), run |-> Keys(AnimStep(s, e).an)]
(* an exiting element is in the scene exactly as long as something animates it *)
AnimInv(s) == \A m \in DOMAIN s.els : \A i \in 1..Len(s.els[m]) : s.els[m][i].ds = Exit => Anims(s, m, s.els[m][i].k) # {}
==============================================================================
