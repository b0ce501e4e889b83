// Encoders of every form on simple and collection marks; records graphic attributes after every run.
const L = require('../lib.cjs');
const rv = L.rng(L.seed + 71);
function enc(e) {
  switch (e.t) {
    case 'const': return rv.bool(0.8) ? e.c : { callback: () => e.c };
    case 'field': return rv.bool(0.7) ? { field: 'v' } : d => d.v;
    case 'sig': return rv.bool(0.7) ? { signal: e.s } : { callback: (d, el, p) => p[e.s], dependency: [e.s] };
    case 'fn': return { callback: (d, el, p) => d.v * 2 + p[e.s] + e.c, dependency: e.s };
    case 'lin': { const o = { scale: 'lin' }; if (e.f === 'v') o.field = 'v'; else o.value = e.c; if (e.off || rv.bool()) o.offset = e.off; return o; }
    case 'band': { const o = { scale: 'band', field: 'k' }; if (e.off) o.offset = e.off; if (e.half) o.band = 0.5; return o; }
  }
}
// 'size' of the specification is drawn on a channel that exists for the mark type: `size` is dropped by line marks
let C3 = 'size';
const chan = c => (c === 'size' ? C3 : c);
const encs = m => { const o = {}; for (const c of Object.keys(m)) o[chan(c)] = enc(m[c]); return o; };
function exec(beh) {
  L.mark(beh);
  const cfg = beh[0].cfg;
  C3 = cfg.coll ? 'miterLimit' : 'size';
  const view = L.mkView({ width: 100, height: 100 });
  const stateEncs = st => (cfg.fn && st === 'update' && !cfg.coll ? null : encs(cfg.enc[st]));
  const full = {};
  for (const st of ['enter', 'update', 'group']) if (Object.keys(cfg.enc[st]).length) full[st] = encs(cfg.enc[st]);
  L.emit({ op: 'reset', cfg });
  try {
    view.parseSpec({ signals: ['a', 'b', 'r'].map(id => ({ id, value: cfg.sig[id] })), data: [{ id: 'd', values: [] }],
      scales: [{ id: 'lin', type: 'linear', domain: [0, 10], range: { callback: (s, p) => [5, 5 + p.r * 10], dependency: ['r'] } },
        { id: 'band', type: 'band', domain: { data: 'd', field: 'k' }, range: { callback: (s, p) => [0, 20 * new Set(p.d.map(x => x.k)).size], dependency: ['d'] } }],
      marks: [{ type: cfg.coll ? 'line' : 'symbol', id: 'm', from: { data: 'd' }, key: 'k', groupBy: cfg.group ? 'g' : undefined, encode: full }] });
    const m = view.getMarkById('m'), d = view.getDataById('d');
    const S = id => view.getSignalById(id);
    const num = x => (x === undefined || x === null ? L.NAI : L.I(Math.round(x * 1e6) / 1e6));
    for (const e of beh.slice(1)) {
      const line = Object.assign({}, e);
      if (e.op === 'rows') d.values(e.rows.map(x => Object.assign({}, x)));
      else if (e.op === 'sig') { S(e.s).value(e.v); line.dep = false; line.dep = m.references.has(S(e.s)) || (e.s === 'r' && m.references.has(view.getScaleById('lin'))); }
      else if (e.op === 'encode') { if (e.state === 'update' && rv.bool()) m.encode(chan(e.ch), enc(e.enc)); else rv.bool() ? m.encodeState(e.state, chan(e.ch), enc(e.enc)) : m.encodeState(e.state, { [chan(e.ch)]: enc(e.enc) }); }
      else if (e.op === 'replace') m.encodeState(e.state, encs(e.encs), true);
      else if (e.op === 'run') {
        view.run();
        line.obs = m.elements.map(el => {
          const a = el.getGraphicItem().attribute;
          return { id: cfg.coll ? (cfg.group ? L.S(el.groupKey) : 'all') : (cfg.group ? el.groupKey + '-' + el.key : L.S(el.key)),
            at: cfg.coll ? [num(a[C3]), num(a.lineWidth)] : [num(a[C3]), num(a.lineWidth), num(a.x), num(a.y)],
            pts: cfg.coll ? (a.points || []).map(p => [num(p.x), num(p.y)]) : [] };
        });
      }
      L.emit(line);
    }
  } catch (err) { L.emit({ op: 'threw', msg: String(err && err.stack).slice(0, 500) }); }
  L.dropView(view);
}
const r = L.rng(L.seed + 3);
const total = L.quick ? 700 : 8000;
for (let t = 0; t < total; t++) {
  const coll = r.bool(0.3), group = r.bool(0.5);
  const mk = () => { const k = r.pick(['const', 'field', 'sig', 'fn', 'lin', 'lin', 'band']);
    return k === 'const' ? { t: k, c: r.int(0, 50) } : k === 'field' ? { t: k } : k === 'sig' ? { t: k, s: r.pick(['a', 'b']) } : k === 'fn' ? { t: k, s: r.pick(['a', 'b']), c: r.int(0, 9) }
      : k === 'lin' ? { t: k, f: r.pick(['v', 'c']), c: r.int(0, 10), off: r.pick([0, 3, -2]) } : { t: k, off: r.pick([0, 5]), half: r.pick([0, 1]) }; };
  const chs = ['x', 'y', 'size', 'lineWidth'];
  const some = p => { const o = {}; for (const c of chs) if (r.bool(p)) o[c] = mk(); return o; };
  const e0 = { enter: some(0.4), update: some(0.5), group: coll ? {} : some(0.3) };
  if (coll) { e0.update.x = mk(); e0.update.y = mk(); if (r.bool(0.4)) e0.group.size = mk(); if (r.bool(0.4)) e0.group.lineWidth = mk(); }
  const cfg = { coll, group, fn: false, enc: e0, sig: { a: r.int(0, 9), b: r.int(0, 9), r: r.int(1, 9) }, lin: 10 };
  const rows = () => Array.from({ length: r.pick([1, 1, 2, 3, 5, 0]) }, () => ({ k: r.pick(['a', 'b', 'c', 'e', 'f']), g: r.pick(['A', 'B']), v: r.int(0, 10) }));
  const beh = [{ op: 'reset', cfg }, { op: 'rows', rows: rows() }, { op: 'run' }];
  const n = r.int(3, 10);
  for (let i = 0; i < n; i++) {
    const p = r();
    if (p < 0.25) beh.push({ op: 'rows', rows: rows() });
    else if (p < 0.45) beh.push({ op: 'sig', s: r.pick(['a', 'b', 'r']), v: r.int(1, 9) });
    else if (p < 0.6) { const st = r.pick(coll ? ['update', 'enter'] : ['update', 'enter', 'group']); beh.push({ op: 'encode', state: st, ch: r.pick(chs), enc: mk() }); }
    else if (p < 0.68) { const st = r.pick(['update', 'enter']); const m = some(0.5); if (coll && st === 'update') { m.x = mk(); m.y = mk(); } beh.push({ op: 'replace', state: st, encs: m }); }
    else beh.push({ op: 'run' });
  }
  beh.push({ op: 'run' });
  exec(beh);
}
L.done();
