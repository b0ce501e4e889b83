// Builds grammar graphs in a View and records every evaluation (through the users' own callbacks) of every pass.
const L = require('../lib.cjs');
const M = 97;
// slots per kind of grammar; weight 0 = the slot only creates a dependency
const W = { signal: [1, 2], data: [1, 2, 3, 0], scale: [1, 2, 3, 0], mark: [1, 2, 3, 4, 0, 0, 0, 0, 0, 0] };
let nth = 0;
function exec(cfg, cmds, variant) {
  L.mark({ cfg, cmds });
  const view = L.mkView({ width: 50, height: 50 });
  const N = {};
  let log = [];
  const param = v => (v === undefined || v === null ? 0 : typeof v === 'number' ? v : Array.isArray(v) ? v[0].v : typeof v.domain === 'function' ? (v.domain()[1] + v.range()[1]) % M : 0);
  const wsum = (n, k, params) => n.w[k] * n.slots[k].reduce((a, d, i) => a + (i + 1) * param(params[d]), 0);
  const rest = (n, from, params) => { let t = 0; for (let k = from; k < n.slots.length; k++) t += wsum(n, k, params); return t; };
  const ref = id => (variant() ? N[id].g : id);           // references by id or by instance
  const out = n => (n.kind === 'signal' ? n.g.output() : n.kind === 'data' ? (n.g.output() || [{}])[0].v
    : n.kind === 'scale' ? param(n.g.output()) : n.kind === 'mark' ? (() => { const a = n.g.elements[0].getGraphicItem().attribute; return (a.x + a.y + a.width + a.height) % M; })() : 0);
  const rk = L.rng(L.seed * 131 + (++nth));
  const apply = (n, k) => {
    const deps = n.slots[k].map(ref);
    const id = n.id;
    if (n.kind === 'signal') {
      if (k === 0) n.g.update({ callback: (sig, params) => { log.push(id); return (n.c + rest(n, 0, params)) % M; }, dependency: deps });
      else n.g.depend(deps);
    } else if (n.kind === 'data') {
      if (k === 0) { if (deps.length) n.g.source(deps[0]); else n.g.values([{ v: 0 }]); }
      else if (k === 1 || k === 3) n.g.transform([{ type: 'map', all: true, dependency: n.slots[1].map(ref), extra: n.slots[3].length ? n.slots[3].map(x => (x[0] === 's' ? { signal: ref(x) } : x[0] === 'c' ? { scale: x } : { data: x })) : undefined, callback: (rows, params) => { log.push(id); const up = rows && rows.length ? rows[0].v : 0; return [{ v: (n.c + up + rest(n, 1, params)) % M }]; } }]);
      else n.g.depend(deps);
    } else if (n.kind === 'scale') {
      if (k === 0) n.g.domain({ callback: (s, params) => { log.push(id); return [0, (n.c + wsum(n, 0, params) + wsum(n, 2, params)) % M]; }, dependency: deps });
      else if (k === 1) n.g.range({ callback: (s, params) => [0, wsum(n, 1, params) % M], dependency: deps });
      else if (k === 2) n.g.depend(deps);
      else n.g.configure({ zero: { callback: () => false, dependency: deps } });
    } else if (k === 5) {
      if (!deps.length && rk.bool(0.5)) n.g.encodeState('enter', 'strokeOpacity', rk.bool(0.5) ? null : 0.5);
      else n.g.encodeState('enter', 'strokeOpacity', { callback: () => 0.5, dependency: deps });
    } else if (k === 6) {
      n.g.state(!deps.length && rk.bool(0.5) ? null : { callback: () => 'none', dependency: deps });
    } else if (k === 7) {
      n.g.transform(!deps.length && rk.bool(0.5) ? null : [{ type: 'filter', callback: () => true, dependency: deps }]);
    } else if (k === 8) {
      n.g.join(deps[0] ?? null);
    } else if (k === 9) {
      n.g.depend(deps);
    } else {
      const ch = ['x', 'y', 'width', 'height', 'fillOpacity'][k];
      const vk = k === 4 ? rk.pick([0, 0, 0, 1, 2]) : 3;
      const enc = vk < 2 && deps.length === 0 ? (vk === 0 ? null : 0.5)
        : vk < 2 && deps.length === 1 && 'sc'.includes(n.slots[k][0][0]) ? (n.slots[k][0][0] === 's' ? { signal: deps[0] } : { scale: deps[0], value: 1 })
        : { callback: (d, el, params) => { if (k === 0) log.push(id); return (k === 0 ? n.c : 0) + (n.w[k] ? wsum(n, k, params) : 0.5); }, dependency: deps };
      if (rk.bool(0.5)) n.g.encode(ch, enc); else n.g.encode({ [ch]: enc });
    }
  };
  const ids = Object.keys(cfg.nodes);
  const lineCfg = { nodes: {} };
  for (const id of ids) {
    const d = cfg.nodes[id];
    const n = (N[id] = { id, kind: d.kind, c: d.c, slots: d.slots.map(s => s.slice()), w: W[d.kind].slice(0, d.slots.length), src: d.src });
    lineCfg.nodes[id] = { src: d.src, c: d.c, slots: d.slots, w: n.w };
    if (d.kind === 'signal') n.g = view.signal(d.src ? d.c : 0).id(id);
    else if (d.kind === 'data') n.g = view.data(d.src ? [{ v: d.c }] : []).id(id);
    else if (d.kind === 'scale') n.g = view.scale('linear').id(id);
    else n.g = view.mark('rect', 'root').id(id);
  }
  for (const id of ids) if (!N[id].src) N[id].slots.forEach((s, k) => apply(N[id], k));
  L.emit({ op: 'reset', cfg: lineCfg });
  for (const e of cmds) {
    try {
      if (e.op === 'run') {
        log = [];
        view.run();
        L.emit({ op: 'run' });
        for (const x of log) L.emit({ op: 'eval', n: x });
        const obs = {}; for (const id of ids) obs[id] = L.I(out(N[id]));
        L.emit({ op: 'end', obs });
        continue;
      }
      const n = N[e.n];
      if (e.op === 'src') { const was = n.src; n.src = true; n.c = e.v; n.slots = n.slots.map(() => []); n.g.depend([]); if (n.kind === 'signal') { if (was && variant()) view.updateSignal(variant() ? e.n : n.g, e.v); else n.g.value(e.v); } else n.g.values([{ v: e.v }]); }
      else if (e.op === 'slot') { n.src = false; n.slots[e.k - 1] = e.deps; apply(n, e.k - 1); }
      else if (e.op === 'derive') { n.src = false; n.c = e.c; n.slots[0] = e.deps; apply(n, 0); }
      L.emit(e);
    } catch (err) { L.emit({ op: 'threw', at: e, msg: String(err && err.message) }); break; }
  }
  L.dropView(view);
}
const acyclic = nodes => {
  const seen = {};
  const visit = x => { if (seen[x] === 1) return false; if (seen[x] === 2) return true; seen[x] = 1; if (!nodes[x].src) for (const s of nodes[x].slots) for (const y of s) if (!visit(y)) return false; seen[x] = 2; return true; };
  return Object.keys(nodes).every(visit);
};
// ---- behaviours generated from the specification
const rv = L.rng(L.seed + 31);
for (const b of L.behaviours()) {
  const nodes = {};
  for (const x of ['s1', 's2', 'a', 'b']) nodes[x] = { kind: 'signal', src: x[0] === 's', c: 1, slots: [[], []] };
  exec({ nodes }, b, () => rv.bool(0.3));
}
// ---- seeded graphs of all kinds of grammar
const heavy = process.env.VG_PROP === 'D02';
const r = L.rng(L.seed + (heavy ? 977 : 11));
const total = L.quick ? 700 : 7000;
for (let t = 0; t < total; t++) {
  const n = r.int(3, 9);
  const sparse = r.bool(heavy ? 0.6 : 0.3); // few references: one that is left over is noticed
  const kinds = []; for (let i = 0; i < n; i++) kinds.push(i < 2 ? (i === 0 ? 'signal' : r.pick(['signal', 'data'])) : r.pick(['signal', 'signal', 'data', 'scale', 'mark']));
  const nodes = {};
  const names = r.shuffle(kinds.map((k, i) => k[0] + i)); // creation order is unrelated to dependency order
  const kindOf = x => ({ s: 'signal', d: 'data', m: 'mark' })[x[0]];
  kinds.forEach((k, i) => { });
  const order = kinds.map((k, i) => ({ id: (k === 'scale' ? 'c' : k[0]) + i, kind: k }));
  const src = {}; order.forEach((o, i) => { src[o.id] = i < 2 || ((o.kind === 'signal' || o.kind === 'data') && r.bool(0.15)); });
  const cand = (o, k) => order.filter(p => p.id !== o.id && p.kind !== 'mark' && ((o.kind === 'data' && k === 0) || (o.kind === 'mark' && k === 8) ? p.kind === 'data' : true)).map(p => p.id);
  const mkSlot = (o, k, before) => {
    let c = cand(o, k).filter(x => !before || before.includes(x));
    if ((o.kind === 'data' && k === 0) || (o.kind === 'mark' && k === 8)) return c.length && r.bool(0.7) ? [r.pick(c)] : [];
    const len = r.pick(sparse ? [0, 0, 0, 1] : heavy ? [0, 1, 1, 2, 3] : [0, 1, 1, 2]);
    return c.length ? Array.from({ length: len }, () => r.pick(c)) : [];
  };
  const created = r.shuffle(order); // creation order is unrelated to dependency order
  created.forEach(o => (nodes[o.id] = { kind: o.kind, src: src[o.id], c: r.int(0, 20), slots: W[o.kind].map(() => []) }));
  order.forEach((o, i) => { if (!src[o.id]) nodes[o.id].slots = W[o.kind].map((_, k) => mkSlot(o, k, order.slice(0, i).map(p => p.id))); });
  const cur = JSON.parse(JSON.stringify(nodes));
  const cmds = [{ op: 'run' }];
  const steps = r.int(4, heavy ? 24 : 14);
  for (let i = 0; i < steps; i++) {
    const p = r();
    const o = r.pick(sparse && r.bool(0.5) ? order.filter(x => !src[x.id]).concat(order[0]) : order);
    if (p < (heavy ? 0.25 : 0.4)) cmds.push({ op: 'run' });
    else if (p < (heavy ? 0.45 : 0.75)) {
      const q = r.pick(order.filter(x => cur[x.id].src)); if (!q) continue;
      cur[q.id].c = r.int(0, 96); cmds.push({ op: 'src', n: q.id, v: cur[q.id].c });
    } else {
      if (o.kind === 'signal' || o.kind === 'data') {
        if (cur[o.id].src && !r.bool(0.2)) continue;
        if (o.kind === 'data' && cur[o.id].src) continue;
        if (r.bool(0.1) && o.kind === 'signal') { cur[o.id].src = true; cur[o.id].slots = cur[o.id].slots.map(() => []); cur[o.id].c = r.int(0, 9); cmds.push({ op: 'src', n: o.id, v: cur[o.id].c }); continue; }
      }
      const wasSrc = cur[o.id].src;
      const used = sparse && !wasSrc ? W[o.kind].map((_, j) => j).filter(j => cur[o.id].slots[j].length) : [];
      const k = wasSrc ? 0 : used.length && r.bool(0.5) ? r.pick(used) : r.int(0, W[o.kind].length - 1);
      const s = sparse && !wasSrc && cur[o.id].slots[k].length && r.bool(0.6) ? [] : mkSlot(o, k);
      const keep = JSON.stringify(cur[o.id]);
      cur[o.id].src = false; cur[o.id].slots[k] = s;
      if (!acyclic(cur)) { cur[o.id] = JSON.parse(keep); continue; }
      cmds.push({ op: 'slot', n: o.id, k: k + 1, deps: s });
    }
  }
  cmds.push({ op: 'run' });
  exec({ nodes }, cmds, () => r.bool(0.3));
}
// ---- one reference at a time: taken, given up again, and looked for afterwards
for (let t = 0; t < (heavy ? (L.quick ? 400 : 4000) : 0); t++) {
  const kind = r.pick(['mark', 'mark', 'mark', 'scale', 'data', 'signal']);
  const id = { mark: 'm', scale: 'c', data: 'd', signal: 's' }[kind] + '9';
  const nodes = { s0: { kind: 'signal', src: true, c: 3, slots: W.signal.map(() => []) }, s1: { kind: 'signal', src: true, c: 5, slots: W.signal.map(() => []) }, d2: { kind: 'data', src: true, c: 7, slots: W.data.map(() => []) },
    c3: { kind: 'scale', src: false, c: 2, slots: W.scale.map((_, k) => (k === 0 ? ['s1'] : [])) } };
  nodes[id] = { kind, src: false, c: 1, slots: W[kind].map(() => []) };
  const cmds = [{ op: 'run' }];
  const cur = nodes[id].slots.map(() => []);
  const touch = () => r.shuffle(['s0', 's1', 'd2']).forEach(x => { cmds.push({ op: 'src', n: x, v: r.int(0, 96) }); cmds.push({ op: 'run' }); });
  for (let i = 0; i < 4; i++) {
    const k = r.int(0, W[kind].length - 1);
    const fixed = (kind === 'data' && k === 0) || (kind === 'mark' && k === 8);
    const take = fixed ? ['d2'] : Array.from({ length: r.pick([1, 1, 2]) }, () => r.pick(['s0', 's1', 'd2', 'c3']));
    cmds.push({ op: 'slot', n: id, k: k + 1, deps: take }); cur[k] = take;
    if (r.bool(0.6)) cmds.push({ op: 'run' });
    if (r.bool(0.8)) { cmds.push({ op: 'slot', n: id, k: k + 1, deps: [] }); cur[k] = []; cmds.push({ op: 'run' }); }
    touch();
  }
  exec({ nodes }, cmds, () => r.bool(0.3));
}
L.done();
