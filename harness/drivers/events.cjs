// Event streams and listeners of a view; events are dispatched through the stage, timers are driven by hand.
const L = require('../lib.cjs');
const { V } = L;
const rv = L.rng(L.seed + 9);
// only debounced (50) and throttled (60) streams use these delays
let timers = [], tid = 1e6;
const realSet = global.setTimeout, realClear = global.clearTimeout;
global.setTimeout = (f, d, ...a) => { if (!(d > 0 && d <= 60)) return realSet(f, d, ...a); timers.push({ id: ++tid, at: L.clock.now + d, f }); return tid; };
global.clearTimeout = id => { if (timers.some(t => t.id === id)) timers = timers.filter(t => t.id !== id); else realClear(id); };
function tick(dt) {
  const end = L.clock.now + dt;
  for (;;) {
    const due = timers.filter(t => t.at <= end).sort((a, b) => a.at - b.at || a.id - b.id)[0];
    if (!due) break;
    timers = timers.filter(t => t !== due); L.clock.now = due.at; due.f();
  }
  L.clock.now = end;
}
const doc = L.dom.window.document;
function exec(beh) {
  L.mark(beh);
  timers = []; L.clock.now += 1000;
  const cfg = beh[0].cfg;
  const asList = (q, arr) => (arr ? q.slice() : q.reduce((o, t) => ((o[t] = true), o), {}));
  const ec = { defaults: {} };
  if (cfg.ev.disable) ec.disable = true;
  if (!cfg.ev.permit.all) ec.view = cfg.ev.permit.q.length ? asList(cfg.ev.permit.q, rv.bool()) : rv.pick([false, []]);
  const pv = cfg.ev.prev;
  if (pv.t === 'all') { if (rv.bool()) ec.defaults.prevent = true; else ec.defaults.allow = false; }
  else if (pv.t === 'only') ec.defaults.prevent = asList(pv.q, rv.bool());
  else if (pv.t === 'allow') ec.defaults.allow = asList(pv.q, rv.bool());
  else { if (rv.bool(0.3)) ec.defaults.allow = true; else if (rv.bool(0.3)) ec.defaults.prevent = false; }
  const view = L.mkView({ width: 100, height: 100, eventConfig: ec });
  L.emit({ op: 'reset', cfg });
  let out = [];
  const selStr = l => (l.src === 'window' ? 'window:' : l.sel.by === 'id' ? '#' + l.sel.v + ':' : l.sel.by === 'name' ? '@' + l.sel.v + ':' : l.sel.by === 'type' ? l.sel.v + ':' : rv.bool() ? 'view:' : '') + l.ty;
  const val = (a, evt, p) => { const v = a.cb === 'v' ? (evt.element ? evt.element.getDatum().v : -1) : a.cb === 'const' ? a.c : p[a.dep] + a.c; return L.I(v); };
  const cbOf = (id, a, i) => (a.cb === 'none' ? undefined : (evt, p) => { const v = val(a, evt, p); out.push({ u: id, i, v }); return v; });
  const base = l => {
    const o = { type: selStr(l) };
    if (l.filt !== -99) o.filter = evt => !!evt.element && evt.element.getDatum().v >= l.filt;
    if (l.consume) o.consume = true;
    if (l.deb) o.debounce = 50;
    if (l.thr) o.throttle = 60;
    if (l.acts.length === 1 && rv.bool(0.7)) { const a = l.acts[0]; if (a.sig) o.target = a.sig; const cb = cbOf(l.id, a, 1); if (cb) o.callback = cb; }
    else if (l.acts.length) { o.target = l.acts.map((a, i) => ({ target: a.sig || 'nosuch', callback: cbOf(l.id, a, i + 1) })); }
    const deps = [...new Set(l.acts.filter(a => a.cb === 'dep').map(a => a.dep))];
    if (deps.length) o.dependency = deps.length === 1 && rv.bool() ? deps[0] : deps;
    return o;
  };
  const evSpec = sp => {
    if (sp.kind === 'between') return Object.assign(base(sp.mid), { between: [base(sp.ls[0]), base(sp.end)] });
    if (sp.kind === 'merge') { // entries share everything but selector (and filter)
      const first = base(sp.ls[0]), o = Object.assign({}, first, { merge: sp.ls.map(l => { const b = base(l); return l.filt === sp.ls[0].filt && rv.bool() ? b.type : { type: b.type, filter: b.filter }; }) });
      delete o.type; delete o.debounce; return o;
    }
    return base(sp.ls[0]);
  };
  const vspec = (sig, marks, events) => ({ signals: ['a', 'b'].map(id => ({ id, value: sig[id] })), data: marks.map(m => ({ id: 'd' + m.id, values: m.rows.map(x => Object.assign({}, x)) })),
    marks: marks.map(m => ({ type: m.type, id: m.id, name: m.name, from: { data: 'd' + m.id }, key: 'k', encode: { update: { x: { signal: 'a' }, y: 1 } } })), events });
  const handlers = {};
  const one = (l, cond) => evt => { out.push({ u: l.id, i: 1, v: val({ cb: 'v' }, evt, {}) }); };
  try {
    view.parseSpec(vspec(cfg.sig, cfg.marks, [])); view.run();
    const stage = view.renderer.stage();
    const obs = () => { const el = view.getMarkById('A').elements[0]; return { out, sig: { a: L.I(view.getSignalById('a').output()), b: L.I(view.getSignalById('b').output()) }, x: L.I(el.getGraphicItem().attribute.x) }; };
    for (const e of beh.slice(1)) {
      const line = Object.assign({}, e);
      out = [];
      if (e.op === 'bind') view.event(evSpec(e.sp));
      else if (e.op === 'listen') { const h = one(e.l); handlers[e.l.id] = [e.l.src === 'mark' ? view.getMarkById(e.l.sel.v) : view, e.l.ty, h]; handlers[e.l.id][0].addEventListener(e.l.ty, h); }
      else if (e.op === 'unlisten') { const [t, ty, h] = handlers[e.id]; t.removeEventListener(ty, h); }
      else if (e.op === 'unlistenall') view.getMarkById(e.m).removeEventListener(e.ty);
      else if (e.op === 'ev') {
        const g = e.m === '' ? stage : view.getMarkById(e.m).elements.find(x => x.key === e.k).getGraphicItem();
        const ev = new V.CustomEvent(e.ty, {}); ev.manager = stage.eventSystem.manager;
        if (e.canc) { if (rv.bool()) ev.cancelable = true; else Object.defineProperty(ev, 'cancelable', { value: undefined }); } else ev.cancelable = false;
        let prevented = false, stopped = false;
        const pd = ev.preventDefault, sp = ev.stopPropagation;
        ev.preventDefault = function () { prevented = true; return pd && pd.call(this); };
        ev.stopPropagation = function () { stopped = true; return sp && sp.call(this); };
        g.dispatchEvent(ev);
        line.prevented = prevented; line.stopped = stopped;
      }
      else if (e.op === 'win') doc.dispatchEvent(new L.dom.window.Event(e.ty, { cancelable: true }));
      else if (e.op === 'tick') tick(1000);
      else if (e.op === 'rows') { view.getDataById('d' + e.m).values(e.rows.map(x => Object.assign({}, x))); view.run(); }
      else if (e.op === 'sig') { view.getSignalById(e.s).value(e.v); view.run(); }
      else if (e.op === 'spec') { view.updateSpec(vspec(e.sig, e.marks, e.events.map(evSpec))); view.run(e.reuse ? undefined : { reuse: false }); }
      if (['ev', 'win', 'tick', 'rows', 'sig', 'spec'].includes(e.op)) line.obs = obs();
      L.emit(line);
    }
    L.dropView(view); out = [];
    doc.dispatchEvent(new L.dom.window.Event('keydown')); tick(1000);
    if (out.length) L.emit({ op: 'threw', msg: 'callbacks after the view was released: ' + JSON.stringify(out).slice(0, 200) });
  } catch (err) { L.emit({ op: 'threw', msg: String(err && err.stack).slice(0, 500) }); L.dropView(view); }
}
for (const b of L.behaviours()) exec(b);
const r = L.rng(L.seed + 15);
const total = L.quick ? 1200 : 12000;
const TY = ['click', 'pointermove', 'pointerdown', 'pointerup'];
for (let t = 0; t < total; t++) {
  const hasSpec = r.bool(0.2);
  let nid = 0, mi = 0;
  const mkMarks = () => ['A', 'B', 'C'].map(id => ({ id, name: r.pick(['n1', 'n2']), type: r.pick(['symbol', 'rect']), rows: rowsOf(id) }));
  const rowsOf = id => r.shuffle(['p', 'q', 's']).slice(0, r.int(id === 'A' ? 1 : 0, 3)).map(k => ({ k, v: r.int(0, 9) }));
  let marks = mkMarks();
  const q = p => TY.filter(() => r.bool(p));
  const ev = { disable: r.bool(0.04), permit: r.bool(0.8) ? { all: true, q: [] } : { all: false, q: q(0.6) },
    prev: r.pick([{ t: 'none', q: [] }, { t: 'none', q: [] }, { t: 'all', q: [] }, { t: 'only', q: q(0.5) }, { t: 'allow', q: q(0.5) }]) };
  const cfg = { sig: { a: r.int(0, 9), b: r.int(0, 9) }, marks, ev };
  const sel = () => { const by = r.pick(['none', 'id', 'name', 'type']); return { by, v: by === 'id' ? r.pick(['A', 'B', 'C', 'zz']) : by === 'name' ? r.pick(['n1', 'n2']) : by === 'type' ? r.pick(['symbol', 'rect', 'line']) : '' }; };
  const NONE = { by: 'none', v: '' };
  const act = pure => { const a = { sig: pure ? '' : r.pick(['a', 'b', '']), cb: r.pick(pure ? ['v', 'const'] : ['v', 'v', 'const', 'dep']), c: r.int(0, 5), dep: r.pick(['a', 'b']) }; if (a.sig && r.bool(0.1)) a.cb = 'none'; return a; };
  const acts = pure => (!pure && r.bool(0.25) ? [act(), act()].map(a => (a.sig ? a : Object.assign(a, { sig: r.pick(['a', 'b']) }))) : [act(pure)]);
  const lis = (id, u, role, ty, src, pure, o) => Object.assign({ id, u, role, src, sel: src === 'view' ? sel() : NONE, ty, filt: src === 'view' && r.bool(0.25) ? r.int(0, 7) : -99, acts: role === 'start' || role === 'end' ? [] : acts(pure), consume: src === 'view' && r.bool(0.15), deb: false, thr: false }, o);
  const spec = pure => {
    const id = 's' + (++nid), k = r();
    if (k < 0.25) return { id, kind: 'between', ls: [lis(id, id + '#start', 'start', 'pointerdown', 'view', pure)], mid: lis(id, id + '#mid', 'mid', 'pointermove', 'view', pure, { thr: r.bool(0.2), }), end: lis(id, id + '#end', 'end', 'pointerup', r.bool(0.2) ? 'window' : 'view', pure) };
    if (k < 0.4) { const l = lis(id, id + '#0', 'plain', r.pick(TY), 'view', pure, { deb: true }); const m = Object.assign({}, l, { u: id + '#1', ty: r.pick(TY), sel: sel(), filt: r.bool() ? l.filt : r.int(0, 7) }); const d = Object.assign({}, l, { id: '', u: '' });
      return { id, kind: 'merge', ls: [l, m], mid: d, end: d }; }
    const win = r.bool(0.15);
    const l = lis(id, id, 'plain', win ? 'keydown' : r.pick(TY), win ? 'window' : 'view', pure, { deb: r.bool(0.12) });
    if (!l.deb && r.bool(0.12)) l.thr = true;
    return { id, kind: 'plain', ls: [l], mid: l, end: l };
  };
  const beh = [{ op: 'reset', cfg }];
  for (let i = r.int(1, 3); i > 0; i--) beh.push({ op: 'bind', sp: spec(hasSpec) });
  const lsn = []; let inspec = [];
  const evt = () => { const rowsM = marks.filter(m => m.rows.length); const m = r.bool(0.12) ? null : r.pick(rowsM); return { op: 'ev', ty: r.pick(TY), m: m ? m.id : '', k: m ? r.pick(m.rows).k : '', canc: r.bool(0.7) }; };
  const n = r.int(6, 25);
  for (let i = 0; i < n; i++) {
    const p = r();
    if (p < 0.07) beh.push({ op: 'bind', sp: spec(hasSpec) });
    else if (p < 0.13) { const id = 'l' + (++nid), mk = r.bool(0.65), m = r.pick(['A', 'B', 'C']), ty = r.pick(TY);
      const l = { id, u: id, role: 'raw', src: mk ? 'mark' : 'view', sel: mk ? { by: 'id', v: m } : NONE, ty, filt: -99, acts: [{ sig: '', cb: 'v', c: 0, dep: 'a' }], consume: false, deb: false, thr: false }; beh.push({ op: 'listen', l }); lsn.push({ id, mk }); }
    else if (p < 0.16 && lsn.length) beh.push({ op: 'unlisten', id: lsn.splice(r.int(0, lsn.length - 1), 1)[0].id });
    else if (p < 0.18) beh.push({ op: 'unlistenall', m: r.pick(['A', 'B', 'C']), ty: r.pick(TY) });
    else if (p < 0.23) beh.push({ op: 'win', ty: r.pick(['keydown', 'pointerup', 'keydown']) });
    else if (p < 0.32) beh.push({ op: 'tick' });
    else if (p < 0.36) { beh.push({ op: 'tick' }); const m = r.pick(marks), rows = rowsOf(m.id); marks = marks.map(x => (x === m ? Object.assign({}, x, { rows }) : x)); beh.push({ op: 'rows', m: m.id, rows }); }
    else if (p < 0.39) beh.push({ op: 'sig', s: r.pick(['a', 'b']), v: r.int(0, 9) });
    else if (p < 0.43 && hasSpec) { beh.push({ op: 'tick' }); marks = mkMarks(); const events = [spec(false), spec(false)].slice(0, r.int(0, 2)); for (let j = lsn.length - 1; j >= 0; j--) if (lsn[j].mk) lsn.splice(j, 1);
      beh.push({ op: 'spec', sig: { a: r.int(0, 9), b: r.int(0, 9) }, marks, events, gone: inspec, reuse: r.bool() }); inspec = events.map(x => x.id); }
    else beh.push(evt());
  }
  beh.push({ op: 'tick' });
  exec(beh);
}
L.done();
