// Progressive marks: views whose marks are drawn step by step, frame by frame, while data, signals and settings change (P01).
'use strict';
const L = require('../lib.cjs');
const V = L.V;
// a progressive transform: `step` rows per progressive run, the first one at once
class P {
  constructor(rows, step) { this.rows = rows; this.step = step; this.i = 0; this.progressiveRun(); }
  progressiveRun() { if (this.rows) this.i = Math.min(this.rows.length, this.i + this.step); }
  output() { return this.rows ? this.rows.slice(0, this.i) : []; }
  progressiveOutput() { return this.rows ? this.rows.slice(Math.max(0, this.i - this.step), this.i) : []; }
  unfinished() { return !!this.rows && this.i < this.rows.length; }
  release() { this.rows = null; }
}
class PA extends P { canAnimate() { return true; } }
V.Factory.registerTransform('vgpt', { transform: (o, data) => ({ progressive: new P(data, o.step) }), markPhase: 'beforeJoin' }, true);
V.Factory.registerTransform('vgpa', { transform: (o, data) => ({ progressive: new PA(data, o.step) }), markPhase: 'beforeJoin' }, true);

let nth = 0;
function exec(beh) {
  const rv = L.rng(L.seed * 7717 + (++nth));
  const cfg = beh[0].cfg;
  L.emit({ op: 'reset', cfg });
  const view = L.mkView({ width: 100, height: 100 });
  try {
    view.signal(cfg.sig).id('s'); view.signal(0).id('oth');
    const data = {};
    for (const d of Object.keys(cfg.data)) data[d] = view.data(cfg.data[d].map(x => Object.assign({}, x))).id(d);
    const other = view.mark('rect', view.rootMark).id('other').encode({ x: { signal: 'oth' } });
    const ms = cfg.ms.map(m => {
      const type = m.ty === 'pt' ? 'symbol' : m.ty === 'pa' ? 'rect' : m.ty;
      const g = view.mark(type, view.rootMark).id(m.id).join(m.d, 'k', undefined, m.grp ? 'g' : undefined)
        .encode({ x: { field: 'v' }, y: m.own ? { signal: 's' } : 7 });
      if (m.st >= 0) g.encodeState('hi', { fill: 'red' }).state(d => (d.v >= m.st ? 'hi' : []));
      if (m.ty === 'pt' || m.ty === 'pa') g.transform([{ type: 'vg' + m.ty, step: m.step }]);
      else g.configure({ progressiveStep: m.step, progressiveThreshold: m.thr });
      return { m, g, live: true };
    });
    const item = (m, gr) => { const a = gr.attribute; return { k: m.ty === 'line' ? -1 : L.I(gr['__vgrammar_scene_item__'] ? gr['__vgrammar_scene_item__'].getDatum().k : -2), x: L.I(a.x), y: L.I(a.y), s: a.fill === 'red' }; };
    const pts = (gr) => { const a = gr.attribute; const ps = a.segments && a.segments.length ? a.segments.reduce((q, s) => q.concat(s.points), []) : a.points || []; return ps.map(p => ({ k: -1, x: L.I(p.x), y: L.I(p.y), s: false })); };
    const obs = () => ms.map(({ m, g, live }) => {
      if (!live) return { live, gs: [], els: [], nel: 0 };
      const gs = []; let flat = [];
      const walk = (c, into) => c.forEachChildren(x => { if (x.type === 'group') { const q = []; gs.push(q); walk(x, q); } else if (x.type === 'line') into.push(...pts(x)); else into.push(item(m, x)); });
      const top = g.graphicItem;
      if (top) { if (m.ty === 'line') { top.forEachChildren(x => { const q = []; if (x.type === 'group') walk(x, q); else q.push(...pts(x)); gs.push(q); }); } else walk(top, flat); }
      if (flat.length) gs.push(flat);
      return { live, gs, els: m.ty === 'line' ? [] : g.elements.map(el => item(m, el.getGraphicItem())), nel: g.elements.length };
    });
    for (const e of beh.slice(1)) {
      const line = Object.assign({}, e);
      if (e.op === 'data') data[e.d].values(e.rows.map(x => Object.assign({}, x)));
      else if (e.op === 'sig') view.getSignalById('s').value(e.v);
      else if (e.op === 'oth') view.getSignalById('oth').value(e.v);
      else if (e.op === 'conf') { const x = ms.find(y => y.m.id === e.m); x.g.configure({ progressiveStep: e.step, progressiveThreshold: e.thr }); x.g.encode('z', rv.int(0, 5)); }
      else if (e.op === 'del') { const x = ms.find(y => y.m.id === e.m); if (x.live) { view.removeGrammar(x.g); x.live = false; } }
      else if (e.op === 'run') view.run();
      else if (e.op === 'frame') L.clock.frame(16);
      if (e.op === 'run' || e.op === 'frame') { line.obs = obs(); line.n = {}; ms.forEach(({ m }, i) => { line.n[m.id] = line.obs[i].gs.reduce((a, q) => a + q.length, 0); }); const g0 = other.elements[0]; line.o = g0 ? L.I(g0.getGraphicItem().attribute.x) : -1; }
      L.emit(line);
    }
    L.dropView(view);
    for (let i = 0; i < 3; i++) L.clock.frame(16);
  } catch (err) { L.emit({ op: 'threw', msg: String(err && err.stack).slice(0, 500) }); L.dropView(view); try { L.clock.frame(16); } catch (e) { /* reported above */ } }
}
for (const b of L.behaviours()) exec(b);
const r = L.rng(L.seed + 77);
const total = L.quick ? 900 : 9000;
for (let t = 0; t < total; t++) {
  const rowsOf = () => { const n = r.pick([0, 1, 2, 4, 6, 8, 12]); const ks = r.shuffle([...Array(n)].map((_, i) => i)); const q = r.int(1, 4); return ks.map(k => ({ k, g: 'g' + r.int(1, q), v: r.int(0, 9) })); };
  const mk = (id) => { const ty = r.pick(['rect', 'rect', 'symbol', 'line', 'pt', 'pa', 'text']); const beh = ty === 'pt' || ty === 'pa'; return { id, ty, d: r.pick(['d1', 'd2']), step: beh ? r.int(1, 5) : r.int(0, 4), thr: beh ? 0 : r.int(0, 6), grp: !beh && r.bool(0.6), st: ty !== 'line' && r.bool(0.4) ? r.int(0, 9) : -1, own: r.bool(0.6) }; };
  const ms = ['m1', 'm2', 'm3'].slice(0, r.int(1, 3)).map(mk);
  const beh = [{ op: 'reset', cfg: { sig: r.int(0, 9), data: { d1: rowsOf(), d2: rowsOf() }, ms } }];
  const n = r.int(5, 25);
  beh.push({ op: 'run' });
  for (let i = 0; i < n; i++) {
    const p = r();
    if (p < 0.4) beh.push({ op: 'frame' });
    else if (p < 0.62) beh.push({ op: 'run' });
    else if (p < 0.74) beh.push({ op: 'data', d: r.pick(['d1', 'd2']), rows: rowsOf() });
    else if (p < 0.82) beh.push({ op: 'sig', v: r.int(0, 9) });
    else if (p < 0.92) beh.push({ op: 'oth', v: r.int(0, 9) });
    else if (p < 0.98) { const c = ms.filter(m => !['pt', 'pa'].includes(m.ty)); if (c.length) beh.push({ op: 'conf', m: r.pick(c).id, step: r.int(1, 4), thr: r.int(1, 6) }); }
    else beh.push({ op: 'del', m: r.pick(ms).id });
    if (['data', 'sig', 'oth', 'conf', 'del'].includes(beh[beh.length - 1].op) && r.bool(0.7)) beh.push({ op: 'run' });
  }
  beh.push({ op: 'run' });
  for (let i = 0; i < 14; i++) beh.push({ op: 'frame' });
  exec(beh);
}
L.done();
