// Drives View/Data/Mark joins and records elements and scene-graph children after every run.
const L = require('../lib.cjs');
const cmp = { none: undefined, asc: (a, b) => a.v - b.v, desc: (a, b) => b.v - a.v };
const cmpArr = { none: undefined, asc: (a, b) => a[0].v - b[0].v, desc: (a, b) => b[0].v - a[0].v };
const key = s => (s === undefined || s === null ? 'undefined' : String(s).replace(/^Symbol\((.*)\)$/, '$1'));
let sw = 0;
function exec(beh) {
  L.mark(beh);
  const cfg0 = beh[0].cfg;
  const view = L.mkView({ width: 100, height: 100 });
  const uids = new Map(); let next = 1;
  const gUid = new Map();
  const keyOf = c => (c.keyMode === 'idx' ? undefined : c.keyMode === 'k' ? (sw++ % 2 ? 'k' : d => d.k) : 'j');
  let cfg = cfg0;
  view.parseSpec({ signals: [{ id: 't', value: 0 }], data: [{ id: 'd', values: [] }],
    marks: [{ type: cfg.coll ? 'line' : 'rect', id: 'm', from: cfg.bound ? { data: 'd' } : undefined, key: keyOf(cfg),
      sort: cfg.coll ? undefined : cmp[cfg.sort], groupBy: cfg.group ? 'g' : undefined, groupSort: cmp[cfg.gsort],
      encode: { update: { x: { signal: 't' }, y: d => d.v ?? 0 } } }] });
  const m = view.getMarkById('m'), d = view.getDataById('d'), t = view.getSignalById('t');
  const obs = () => {
    // fresh elements are numbered in the order of their first row
    const src = d.output() || [];
    const first = e => Math.min(...(e.data || []).map(r => src.indexOf(r)));
    m.elements.filter(e => !uids.has(e)).sort((a, b) => first(a) - first(b)).forEach(e => uids.set(e, next++));
    const els = m.elements.map(e => {
      const g = e.getGraphicItem(); if (g) gUid.set(g, uids.get(e));
      return { e, u: uids.get(e) };
    });
    const kids = []; m.graphicItem && m.graphicItem.forEachChildren(c => { kids.push(gUid.get(c) ?? -1); });
    return { els: els.map(({ e, u }) => ({ k: (cfg.coll && !cfg.group) || (!cfg.bound && cfg.keyMode === 'idx') ? '_default' : key(e.key), g: cfg.group ? key(e.groupKey) : '_default', uid: u, diff: L.S(e.diffState), vs: (e.data || []).map(r => L.I(r.v ?? 0)) })), kids };
  };
  L.emit({ op: 'reset', cfg: cfg0 });
  let rows = [];
  for (const e of beh.slice(1)) {
    let thrown = null, o = null;
    try {
      if (e.op === 'rows') d.values(e.rows.map(r => Object.assign({}, r)));
      else if (e.op === 'touch') t.value(t.output() + 1) ?? 0;
      else if (e.op === 'rejoin') { cfg = e.cfg; m.join(cfg.bound ? 'd' : null, keyOf(cfg), cfg.coll ? undefined : cmp[cfg.sort], cfg.group ? 'g' : undefined, cmp[cfg.gsort]); }
      else if (e.op === 'run') { view.run(); o = obs(); }
    } catch (err) { thrown = String(err && err.message); }
    const line = Object.assign({}, e);
    if (thrown) line.obs = { threw: thrown }; else if (o) line.obs = o;
    L.emit(line);
  }
  L.dropView(view);
}
for (const b of L.behaviours()) exec(b);
// longer, wider histories than the bounded model
const r = L.rng(L.seed + 5);
const N = L.quick ? 150 : 1500;
for (let n = 0; n < N; n++) {
  const coll = r.bool(0.3);
  const mk = () => ({ coll, bound: r.bool(0.9), keyMode: coll ? 'k' : r.pick(['k', 'k', 'j', 'idx']), sort: coll ? 'none' : r.pick(['none', 'asc', 'desc']), group: r.bool(), gsort: coll ? r.pick(['none', 'asc', 'desc']) : 'none' });
  const rows = () => Array.from({ length: r.pick([0, 1, 2, 3, 5, 8, 12]) }, () => { const k = r.pick('abcdefghij'.split('')); return { k, j: r.pick(['p', 'q', k]), g: r.pick(['A', 'B', 'C']), v: r.int(0, 9) }; });
  const beh = [{ op: 'reset', cfg: mk() }];
  const len = r.int(4, 16);
  for (let i = 0; i < len; i++) {
    const p = r();
    beh.push(p < 0.4 ? { op: 'rows', rows: rows() } : p < 0.5 ? { op: 'touch' } : p < 0.6 ? { op: 'rejoin', cfg: mk() } : { op: 'run' });
  }
  beh.push({ op: 'run' });
  exec(beh);
}
L.done();
