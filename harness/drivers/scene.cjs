// Builds, edits and replaces specifications; records the drawn scene and the registry of the view.
const L = require('../lib.cjs');
const { V } = L;
const rv = L.rng(L.seed + 41);
const IDS = ['m1', 'm2', 'm3', 'm4', 'm5', 'm6', 'g1', 'g2'];
const xenc = e => (e.t === 'const' ? (rv.bool() ? e.c : { callback: () => e.c }) : e.t === 'field' ? (rv.bool() ? { field: 'v' } : d => d.v)
  : e.t === 'sig' ? (rv.bool() ? { signal: 's' } : { callback: (d, el, p) => p.s, dependency: 's' }) : { scale: 'sc', field: 'v' });
const encOf = m => ({ update: { x: xenc(m.x), y: m.y, fill: m.f } });
function specOf(e) {
  const sub = p => e.nodes.filter(m => m.p === p).map(m => {
    const o = { type: m.t, id: m.id, encode: encOf(m) };
    if (m.t === 'group') o.marks = sub(m.id);
    else { if (m.src) { o.from = { data: m.src }; o.key = 'k'; } if (m.z || rv.bool()) o.zIndex = m.z; if (m.c || rv.bool()) o.clip = m.c; }
    o.interactive = m.q;
    return o;
  });
  return { signals: [{ id: 's', value: e.sig }], data: Object.keys(e.data).map(id => ({ id, values: e.data[id].map(x => Object.assign({}, x)) })),
    scales: [{ id: 'sc', type: 'linear', domain: [0, 1], range: [0, e.sc] }], marks: sub('root') };
}
function scene(view) {
  const num = x => (x === undefined || x === null ? L.NAI : L.I(Math.round(x * 1e6) / 1e6));
  const el = (m, i, g) => { const a = g.attribute, e = m && m.elements[i]; return { k: e && e.key !== undefined && e.key !== null && e.getGraphicItem() === g ? String(e.key) : '', x: num(a.x), y: num(a.y), f: L.S(a.fill), q: a.pickable !== false }; };
  const kids = (g, known) => { const out = []; g.forEachChildren(c => {
    const m = view.getMarkById(c.name);
    if (m && m.markType === 'group') out.push({ n: L.S(c.name), t: 'group', z: num(c.attribute.zIndex ?? 0), c: !!c.attribute.clip, els: [el(m, 0, c)], kids: kids(c) });
    else { // the graphics of a mark are those of its elements (their order among themselves is not judged)
      let t = m ? m.markType : '?'; const gs = []; c.forEachChildren && c.forEachChildren(x => { if (x.type !== t) t = 'mixed-' + x.type; gs.push(x); });
      const es = m ? m.elements : [];
      if (gs.length !== es.length || es.some(x => !gs.includes(x.getGraphicItem()))) t = 'graphics-' + gs.length + '-elements-' + es.length;
      out.push({ n: L.S(c.name), t, z: num(c.attribute.zIndex ?? 0), c: !!c.attribute.clip, els: es.map((x, i) => el(m, i, x.getGraphicItem())), kids: [] }); }
  }); return out; };
  const top = []; view.renderer.stage().defaultLayer.forEachChildren(c => top.push(c));
  if (top.length !== 1 || top[0].name !== 'root') return [{ n: 'roots-' + top.length, t: '?', z: 0, c: false, els: [], kids: [] }];
  return kids(top[0]);
}
function reg(view) {
  const byid = {}, bytype = {};
  for (const id of IDS) { const m = view.getMarkById(id); byid[id] = m ? L.S(m.markType) : 'none'; }
  for (const t of ['symbol', 'rect', 'text', 'group']) bytype[t] = view.getMarksByType(t).map(m => L.S(m.id())).filter(i => i !== 'root');
  const ids = []; view.traverseMarkTree(() => {});
  view.grammars.getAllMarks().forEach(m => { if (m.id() !== 'root') ids.push(L.S(m.id())); });
  return { ids, byid, bytype };
}
function exec(beh) {
  L.mark(beh);
  const view = L.mkView({ width: 200, height: 200 });
  L.emit({ op: 'reset', cfg: { x: 0 } });
  let first = true;
  try {
    for (const e of beh.slice(1)) {
      const line = Object.assign({}, e);
      if (e.op === 'spec') { if (first) view.parseSpec(specOf(e)); else view.updateSpec(specOf(e)); first = false; }
      else if (e.op === 'add') {
        const m = e.m, g = m.p === 'root' ? (rv.bool() ? 'root' : view.rootMark) : rv.bool() ? m.p : view.getMarkById(m.p);
        const k = (m.t === 'group' ? view.group(g) : view.mark(m.t, g)).id(m.id);
        if (m.src) k.join(rv.bool() ? m.src : view.getDataById(m.src), 'k');
        k.encode({ x: xenc(m.x), y: m.y, fill: m.f });
        if (m.t !== 'group' && (m.z || rv.bool())) k.configure({ zIndex: m.z });
        if (m.t !== 'group' && (m.c || rv.bool())) k.configure({ clip: m.c });
        k.configure({ interactive: m.q });
      }
      else if (e.op === 'rm') view.removeGrammar(rv.bool() ? e.id : view.getMarkById(e.id));
      else if (e.op === 'rmall') { for (const m of view.grammars.getAllMarks().reverse()) if (m.id() !== 'root') view.removeGrammar(m); }
      else if (e.op === 'rows') view.getDataById(e.d).values(e.rows.map(x => Object.assign({}, x)));
      else if (e.op === 'sig') view.getSignalById('s').value(e.v);
      else if (e.op === 'sc') view.getScaleById('sc').range([0, e.v]);
      else if (e.op === 'enc') view.getMarkById(e.id).encode({ x: xenc(e.x), fill: e.f });
      else if (e.op === 'z') view.getMarkById(e.id).configure({ zIndex: e.z }).commit();
      else if (e.op === 'clip') view.getMarkById(e.id).configure({ clip: e.c }).commit();
      else if (e.op === 'inter') view.getMarkById(e.id).configure({ interactive: e.q }).commit();
      else if (e.op === 'run') { e.reuse ? (rv.bool() ? view.run() : view.run({ reuse: true })) : view.run({ reuse: false }); line.obs = scene(view); }
      else if (e.op === 'reg') line.obs = reg(view);
      L.emit(line);
    }
  } catch (err) { L.emit({ op: 'threw', msg: String(err && err.stack).slice(0, 500) }); }
  L.dropView(view);
}
for (const b of L.behaviours()) { b.push({ op: 'run', reuse: true }, { op: 'reg' }); exec(b); }
const r = L.rng(L.seed + 5);
const total = L.quick ? 500 : 6000;
for (let t = 0; t < total; t++) {
  let nodes = [];
  const x = (noRow) => { const k = noRow ? r.pick(['const', 'sig']) : r.pick(['const', 'field', 'sig', 'sc']); return { t: k, c: r.int(0, 9) }; };
  const mk = (id, p) => {
    const g = id[0] === 'g' ? r.bool(0.85) : r.bool(0.1);
    const src = g ? '' : r.pick(['d1', 'd2', 'd1', 'd2', '']);
    return { id, t: g ? 'group' : r.pick(['symbol', 'rect', 'text']), p, src, x: x(g || !src), y: r.int(0, 9), f: r.pick(['red', 'blue']), z: g ? 0 : r.pick([0, 0, 1, 2]), c: g ? false : r.bool(0.2), q: r.bool(0.85) };
  };
  const groups = () => ['root'].concat(nodes.filter(m => m.t === 'group').map(m => m.id));
  const free = () => IDS.filter(i => !nodes.some(m => m.id === i));
  const rows = () => r.shuffle(['a', 'b', 'c', 'd']).slice(0, r.int(0, 4)).map(k => ({ k, v: r.int(0, 9) }));
  const spec = () => { nodes = []; const n = r.int(0, 6); for (let i = 0; i < n; i++) { const id = r.pick(free()); nodes.push(mk(id, r.pick(groups()))); }
    // creation order of a specification is depth first
    const flat = p => nodes.filter(m => m.p === p).flatMap(m => [m].concat(flat(m.id)));
    nodes = flat('root');
    return { op: 'spec', nodes: nodes.slice(), data: { d1: rows(), d2: rows() }, sig: r.int(0, 9), sc: r.int(1, 5) }; };
  const beh = [{ op: 'reset', cfg: { x: 0 } }, spec(), { op: 'run', reuse: true }];
  const n = r.int(3, 14);
  for (let i = 0; i < n; i++) {
    const p = r(), leafs = nodes.filter(m => !nodes.some(k => k.p === m.id)), fr = free();
    if (p < 0.15) beh.push(spec());
    else if (p < 0.3 && fr.length) { const m = mk(r.pick(fr), r.pick(groups())); nodes = nodes.concat(m); beh.push({ op: 'add', m }); }
    else if (p < 0.42 && nodes.length) { const id = r.pick(r.bool(0.7) && leafs.length ? leafs : nodes).id; const within = m => m.id === id || (m.p !== 'root' && within(nodes.find(q => q.id === m.p))); nodes = nodes.filter((all => m => !within(m))(nodes)); beh.push({ op: 'rm', id }); if (r.bool(0.4)) { const m = mk(id, r.pick(groups())); nodes = nodes.concat(m); beh.push({ op: 'add', m }); } }
    else if (p < 0.44) { nodes = []; beh.push({ op: 'rmall' }); }
    else if (p < 0.52) beh.push({ op: 'rows', d: r.pick(['d1', 'd2']), rows: rows() });
    else if (p < 0.57) beh.push({ op: 'sig', v: r.int(0, 9) });
    else if (p < 0.62) beh.push({ op: 'sc', v: r.int(1, 5) });
    else if (p < 0.66 && nodes.length) { const m = r.pick(nodes); beh.push({ op: 'enc', id: m.id, x: x(!m.src), f: r.pick(['red', 'blue']) }); }
    else if (p < 0.69 && leafs.filter(m => m.t !== 'group').length) { const m = r.pick(leafs.filter(q => q.t !== 'group')); beh.push({ op: 'z', id: m.id, z: r.int(0, 3) }); }
    else if (p < 0.74 && leafs.filter(m => m.t !== 'group').length) { const m = r.pick(leafs.filter(q => q.t !== 'group')); beh.push(r.bool() ? { op: 'clip', id: m.id, c: r.bool() } : { op: 'inter', id: r.pick(nodes).id, q: r.bool() }); }
    else if (p < 0.77) beh.push({ op: 'reg' });
    else beh.push({ op: 'run', reuse: r.bool(0.6) });
  }
  beh.push({ op: 'run', reuse: r.bool() }, { op: 'reg' });
  exec(beh);
}
L.done();
