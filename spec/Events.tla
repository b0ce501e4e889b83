-------------------------------- MODULE Events --------------------------------
(* Event streams of a view: view.event() with selectors, filters, targets,     *)
(* between, merge, debounce and throttle, and listeners of marks and the view. *)
(*   sig    : value of every signal                                            *)
(*   ls     : bound listeners in binding order (dynamic ones included)         *)
(*   btw    : id -> "idle" | "on" | "off"  (between streams)                   *)
(*   pend   : listener id -> <<>> or <<payload>> (waiting debounce / throttle)  *)
(*   hot    : throttled listeners inside their window, in order                *)
(*   marks  : id -> [name, type, rows]                                         *)
(* A listener is [id, seg, src, sel, ty, filt, acts, consume, deb, thr, role]   *)
(*   sel = [by |-> none/id/name/type, v], filt = minimal datum or None,         *)
(*   acts = <<[sig, cb, c, dep]>>,  role = plain/start/mid/end                  *)
(* A payload is [m, k, v] - mark and key of the element hit ("" for none)      *)
EXTENDS Util, TLC
In(q, x) == \E i \in 1..Len(q) : q[i] = x
NoEl == [m |-> "", k |-> "", v |-> 0 - 1]
NoFilt == 0 - 99
Events0(cfg) == [sig |-> cfg.sig, ls |-> <<>>, btw |-> [i \in {"x"} |-> "idle"], pend |-> <<>>, hot |-> <<>>,
                 marks |-> cfg.marks, ev |-> cfg.ev, specs |-> [i \in {"x"} |-> 0], out |-> <<>>]

Mark(s, id) == Filter(s.marks, LAMBDA m : m.id = id)[1]
SelOk(s, sel, p) ==
  CASE sel.by = "none" -> TRUE
    [] p.m = "" -> FALSE
    [] sel.by = "id" -> p.m = sel.v
    [] sel.by = "name" -> Mark(s, p.m).name = sel.v
    [] sel.by = "type" -> Mark(s, p.m).type = sel.v
FiltOk(f, p) == f = NoFilt \/ p.v >= f
(* event configuration: which types of view events may be bound, which prevent the default *)
Permit(s, ty) == ~s.ev.disable /\ (s.ev.permit.all \/ ty \in Range(s.ev.permit.q))
Prevents(s, ty) == CASE s.ev.prev.t = "none" -> FALSE
                     [] s.ev.prev.t = "all" -> TRUE
                     [] s.ev.prev.t = "only" -> ty \in Range(s.ev.prev.q)
                     [] s.ev.prev.t = "allow" -> ty \notin Range(s.ev.prev.q)
                     [] OTHER -> FALSE
CanBind(s, l) == ~s.ev.disable /\ (l.src = "window" \/ Permit(s, l.ty))
Bind(s, l) == IF CanBind(s, l) THEN [s EXCEPT !.ls = Append(@, l)] ELSE s
Unbind(s, P(_)) == [s EXCEPT !.ls = Filter(@, LAMBDA l : ~P(l)), !.pend = Filter(@, LAMBDA q : \E l \in Range(s.ls) : l.u = q.u /\ ~P(l)),
                            !.hot = Filter(@, LAMBDA u : \E l \in Range(s.ls) : l.u = u /\ ~P(l))]

CbVal(s, a, p) == CASE a.cb = "v" -> p.v [] a.cb = "const" -> a.c [] a.cb = "dep" -> s.sig[a.dep] + a.c [] OTHER -> 0
(* parameters are read once, before the first action *)
RECURSIVE Acts(_, _, _, _, _)
Acts(s0, s, l, p, i) == IF i > Len(l.acts) THEN s
  ELSE LET a == l.acts[i]  v == CbVal(s0, a, p) IN
       Acts(s0, IF a.cb = "none" THEN s
                ELSE [s EXCEPT !.sig = IF a.sig = "" THEN @ ELSE [@ EXCEPT ![a.sig] = v], !.out = Append(@, [u |-> l.id, i |-> i, v |-> v])], l, p, i + 1)
Fire(s, l, p) ==
  IF ~(SelOk(s, l.sel, p) /\ FiltOk(l.filt, p)) THEN s
  ELSE CASE l.role = "start" ->
              LET s1 == IF s.btw[l.id] = "on" THEN s ELSE Bind(s, s.specs[l.id].mid)
                  s2 == IF s.btw[l.id] = "idle" THEN Bind(s1, s.specs[l.id].end) ELSE s1
              IN [s2 EXCEPT !.btw[l.id] = "on"]
         [] l.role = "end" -> IF s.btw[l.id] = "on" THEN [Unbind(s, LAMBDA x : x.id = l.id /\ x.role = "mid") EXCEPT !.btw[l.id] = "off"] ELSE s
         [] OTHER -> Acts(s, s, l, p, 1)
Pending(s, l) == Filter(s.pend, LAMBDA q : q.u = l.u) # <<>>
SetPend(s, l, p) == LET n == [u |-> l.u, p |-> p, thr |-> l.thr] IN
  [s EXCEPT !.pend = IF Pending(s, l) THEN Map(@, LAMBDA q : IF q.u = l.u THEN n ELSE q) ELSE Append(@, n)]
(* debounce waits for silence and keeps the last event; throttle runs the first at once and the last of the others later *)
Receive(s, l, p) ==
  IF l.deb THEN SetPend(s, l, p)
  ELSE IF l.thr THEN (IF In(s.hot, l.u) THEN SetPend(s, l, p) ELSE Fire([s EXCEPT !.hot = Append(@, l.u)], l, p))
  ELSE Fire(s, l, p)
RECURSIVE Deliver(_, _, _, _)
Deliver(s, ls, p, i) == IF i > Len(ls) THEN s ELSE Deliver(Receive(s, ls[i], p), ls, p, i + 1)
Hit(s, src, ty) == Filter(s.ls, LAMBDA l : l.src = src /\ l.ty = ty)
RowV(s, m, k) == LET r == Filter(Mark(s, m).rows, LAMBDA x : x.k = k) IN IF r = <<>> THEN 0 - 1 ELSE r[1].v
Payload(s, e) == IF e.m = "" THEN NoEl ELSE [m |-> e.m, k |-> e.k, v |-> RowV(s, e.m, e.k)]
Clear(s) == [s EXCEPT !.out = <<>>]
RECURSIVE FirePend(_, _)
FirePend(s, q) == IF q = <<>> THEN s ELSE
  LET l == Filter(s.ls, LAMBDA x : x.u = q[1].u) IN
  FirePend(IF l = <<>> THEN s ELSE Fire([s EXCEPT !.pend = Filter(@, LAMBDA y : y.u # q[1].u)], l[1], q[1].p), Tail(q))

(* debounced streams are due first (their wait is shorter), throttled ones in the order of their first call *)
Due(s) == Filter(s.pend, LAMBDA q : ~q.thr) \o Concat(Map(s.hot, LAMBDA u : Filter(s.pend, LAMBDA q : q.u = u)))

(* the streams of one event specification *)
BindSpec(s, sp) ==
  LET s1 == [s EXCEPT !.specs = [i \in DOMAIN @ \cup {sp.id} |-> IF i = sp.id THEN sp ELSE @[i]],
                      !.btw = [i \in DOMAIN @ \cup {sp.id} |-> IF i = sp.id THEN "idle" ELSE @[i]]]
  IN Fold(LAMBDA x, l : Bind(x, l), s1, sp.ls)
(* mark and view listeners *)
MarkLs(s, p, ty) == Filter(s.ls, LAMBDA l : l.src = "mark" /\ l.ty = ty /\ p.m # "" /\ l.sel.v = p.m)
EventsStep(s0, e) ==
  LET s == Clear(s0) IN
  CASE e.op = "bind" -> BindSpec(s, e.sp)
    [] e.op = "listen" -> [s EXCEPT !.ls = Append(@, e.l)]
    [] e.op = "unlisten" -> Unbind(s, LAMBDA l : l.id = e.id)
    [] e.op = "unlistenall" -> Unbind(s, LAMBDA l : l.src = "mark" /\ l.sel.v = e.m /\ l.ty = e.ty)
    [] e.op = "ev" -> LET p == Payload(s, e) IN Deliver(s, IF s.ev.disable THEN MarkLs(s, p, e.ty) ELSE Hit(s, "view", e.ty) \o MarkLs(s, p, e.ty), p, 1)
    [] e.op = "win" -> Deliver(s, Hit(s, "window", e.ty), NoEl, 1)
    [] e.op = "tick" -> [FirePend(s, Due(s)) EXCEPT !.hot = <<>>]
    [] e.op = "rows" -> [s EXCEPT !.marks = Map(@, LAMBDA m : IF m.id = e.m THEN [m EXCEPT !.rows = e.rows] ELSE m)]
    [] e.op = "sig" -> [s EXCEPT !.sig[e.s] = e.v]
    [] e.op = "spec" -> (* a new specification: its events replace those of the previous one, listeners of removed marks go *)
         LET s1 == Unbind(s, LAMBDA l : l.src = "mark" \/ (\E i \in 1..Len(e.gone) : e.gone[i] = l.id))
         IN Fold(LAMBDA x, sp : BindSpec(x, sp), [s1 EXCEPT !.sig = e.sig, !.marks = e.marks, !.hot = <<>>], e.events)
    [] OTHER -> s
Obs(s1) == [out |-> s1.out, sig |-> s1.sig, x |-> s1.sig.a]
Streams(s, ty) == {l \in Range(Hit(s, "view", ty)) : l.role # "raw"}
(* must / may an event be default-prevented *)
MustPrevent(s, e) == LET p == Payload(s, e) IN
  ~s.ev.disable /\ \E l \in Streams(s, e.ty) : ~l.deb /\ ~l.thr /\ (Prevents(s, e.ty) \/ (l.consume /\ e.canc /\ SelOk(s, l.sel, p) /\ FiltOk(l.filt, p)))
MayPrevent(s, e) == \E l \in Streams(s, e.ty) : Prevents(s, e.ty) \/ (l.consume /\ e.canc)
MustStop(s, e) == LET p == Payload(s, e) IN
  ~s.ev.disable /\ \E l \in Streams(s, e.ty) : ~l.deb /\ ~l.thr /\ l.consume /\ SelOk(s, l.sel, p) /\ FiltOk(l.filt, p)
MayStop(s, e) == \E l \in Streams(s, e.ty) : l.consume
EventsExplain(s, e) == Obs(EventsStep(s, e)) @@ (IF e.op = "ev" THEN [mustPrevent |-> MustPrevent(s, e), mayPrevent |-> MayPrevent(s, e)] ELSE [none |-> 0])
EventsAccept(s, e) ==
  /\ e.op # "threw"
  /\ e.op \in {"ev", "win", "tick", "rows", "sig", "spec"} => e.obs = Obs(EventsStep(s, e))
  /\ e.op = "ev" => /\ (MustPrevent(s, e) => e.prevented) /\ (e.prevented => MayPrevent(s, e))
                    /\ (MustStop(s, e) => e.stopped) /\ (e.stopped => MayStop(s, e))
EventsInv(s) == Cardinality({l.u : l \in Range(s.ls)}) = Len(s.ls)
==============================================================================
