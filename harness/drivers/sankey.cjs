// Sankey layout as a transform of a view.
const L = require('../lib.cjs');
const V = L.V;
V.vsankey.registerSankeyTransforms();
const U = 2000;
const len = x => L.FX(x, U);
const rawTree = n => { const o = { k: n.k }; if (n.v >= 0) o.value = n.v; if (n.c.length) o.children = n.c.map(rawTree); return o; };
function rawData(d, opt) {
  if (d.t === 'tree') return [{ nodes: d.tree.map(rawTree) }];
  const end = x => (d.t === 'nodes' && !opt.key ? +x : x);
  const links = d.links.map((l, i) => { const o = { source: end(l.s), target: end(l.t), i }; if (l.v >= 0) o.value = l.v; return o; });
  if (d.t === 'links') return [{ links }];
  return [{ nodes: d.nodes.map(n => { const o = { k: n.k }; if (n.v >= 0) o.value = n.v; return o; }), links }];
}
const par = (tab, v) => tab[v % 2];
function options(o, rnd, sig) {
  const t = { type: 'sankey' };
  const opt = (name, v, d) => { if (v !== d || rnd.bool()) t[name] = v; };
  opt('nodeAlign', o.align, 'justify'); opt('direction', o.vert ? 'vertical' : 'horizontal', 'horizontal'); opt('inverse', o.inv, false);
  opt('crossNodeAlign', o.cross, 'middle'); opt('gapPosition', o.gappos, 'middle'); opt('dropIsolatedNode', o.drop, true);
  if (o.gapfn.length) t.nodeGap = n => par(o.gapfn, n.value); else if (o.gap !== 8 || rnd.bool()) t.nodeGap = sig('gap', o.gap);
  if (o.nw.t === 'fn') t.nodeWidth = n => par(o.nw.tab, n.value); else if (o.nw.t === 'pct') t.nodeWidth = o.nw.v + '%'; else if (o.nw.v !== 24 || rnd.bool()) t.nodeWidth = sig('nw', o.nw.v);
  if (o.lw.t === 'fn') t.linkWidth = l => par(o.lw.tab, l.value); else if (o.lw.t === 'px') t.linkWidth = o.lw.v;
  if (o.minstep > 0) t.minStepWidth = o.minstep;
  if (o.equal || rnd.bool()) t.equalNodeHeight = o.equal;
  if (o.nh.t !== 'none') t.nodeHeight = o.nh.t === 'px' ? o.nh.v : n => par(o.nh.tab, n.value);
  if (o.lh.t !== 'none') t.linkHeight = o.lh.t === 'px' ? o.lh.v : l => par(o.lh.tab, l.value);
  if (o.minn >= 0) t.minNodeHeight = o.minn;
  if (o.maxn >= 0) t.maxNodeHeight = o.maxn;
  if (o.minl >= 0) t.minLinkHeight = o.minl;
  if (o.maxl >= 0) t.maxLinkHeight = o.maxl;
  if (o.iter !== 6 || rnd.bool()) t.iterations = o.iter;
  if (o.sort !== 'none') t.nodeSortBy = o.sort === 'asc' ? (a, b) => a.value - b.value : (a, b) => b.value - a.value;
  if (o.lsort !== 'none') t.linkSortBy = o.lsort === 'asc' ? (a, b) => a.value - b.value : (a, b) => b.value - a.value;
  if (o.over !== 'none') t.linkOverlap = o.over;
  if (o.divide) t.divideNodeValueToLink = true;
  if (o.key) t.nodeKey = rnd.bool() ? 'k' : d => d.k;
  if (o.haslay) { const m = {}; o.lay.slice().reverse().forEach(x => (m[x.k] = x.d)); t.setNodeLayer = d => (d ? m[d.k] : undefined); }
  return t;
}
function exec(cfg, cmds, rnd) {
  L.mark({ cfg, cmds });
  L.emit({ op: 'reset', cfg });
  const view = L.mkView({ width: 60, height: 60 });
  let { data, opt, box } = cfg;
  const names = cfg.corners ? ['x0', 'y0', 'x1', 'y1'] : ['', '', 'width', 'height'];
  const signals = {};
  const sig = (n, v) => { if (rnd.bool(0.6)) return v; if (!signals[n]) signals[n] = view.signal(v).id(n); else signals[n].set(v); return { signal: n }; };
  names.forEach((n, i) => { if (n) view.signal(box[i]).id('b' + i); });
  const mkT = () => { const t = options(opt, rnd, sig); names.forEach((n, i) => { if (n) t[n] = { signal: 'b' + i }; }); return t; };
  const D = view.data(rawData(data, opt)).id('D');
  const m = view.mark('rect', view.rootMark).id('m').join('D').encode({ update: { width: 1, height: 1 } });
  D.transform([mkT()]);
  for (const e of cmds) {
    const line = Object.assign({}, e);
    try {
      if (e.op === 'data') { data = e.data; D.values(rawData(data, opt)); }
      else if (e.op === 'opt') { opt = e.opt; D.values(rawData(data, opt)); D.transform([mkT()]); }
      else if (e.op === 'box') { box = e.box; names.forEach((n, i) => { if (n) view.updateSignal('b' + i, box[i]); }); }
      else {
        view.run();
        const out = D.output();
        line.nul = !out.length;
        line.count = m.elements.length;
        const res = out[0] || { nodes: [], links: [], columns: [] };
        const rect = n => [n.x0, n.x1, n.y0, n.y1].map(len);
        line.nodes = res.nodes.map(n => ({ k: L.S(n.key), v: L.I(n.value), d: L.I(n.depth), ly: L.I(n.layer), last: n.isLastLayer === true, dt: n.datum ? L.S(n.datum.k) : '', r: rect(n), src: n.sourceLinks.map(l => L.I(l.index)), tgt: n.targetLinks.map(l => L.I(l.index)) }));
        line.links = res.links.map(l => ({ s: L.S(l.source), t: L.S(l.target), v: L.I(l.value), i: L.I(l.index), n: Array.isArray(l.datum) ? l.datum.length : L.I(l.datum.i), par: (l.parents || []).map(L.S), ver: l.vertical === true, th: len(l.thickness), p: [l.x0, l.y0, l.x1, l.y1].map(len), sr: rect(l.sourceRect), tr: rect(l.targetRect) }));
        // the shapes offered for drawing
        const nums = x => (x.path.match(/-?\d+(\.\d+)?(e-?\d+)?/g) || []).map(Number);
        line.fr = V.vsankey.formatNodeRect(res.nodes).map(n => [n.x, n.y, n.width, n.height].map(len));
        line.pg = V.vsankey.formatLinkPolygon(res.links).map(l => l.points.flatMap(q => [q.x, q.y]).map(len));
        line.pt = V.vsankey.formatLinkPath(res.links, false).map(l => nums(l).map(len));
        line.pr = V.vsankey.formatLinkPath(res.links, true).map(l => nums(l).map(L.I));
        const bd = V.vsankey.getBoundsOfNodes(res.nodes);
        line.bd = res.nodes.length ? [bd.x0, bd.x1, bd.y0, bd.y1, bd.width, bd.height].map(len) : [];
        line.cols = Array.from(res.columns, c => (c || []).map(n => L.S(n.key)));
      }
    } catch (x) { L.emit({ op: 'threw', at: e.op, err: String(x && x.stack).slice(0, 300) }); break; }
    L.emit(line);
  }
  L.dropView(view);
}
const r0 = L.rng(L.seed + 710);
for (const b of L.behaviours()) exec(b[0].cfg, b.slice(1), r0);
const r = L.rng(L.seed + 43);
const M = L.quick ? 900 : 9000;
function mkData(kind, opt) {
  const d = { t: kind, nodes: [], links: [], tree: [] };
  if (kind === 'tree') {
    let left = r.int(2, 12), nm = 0;
    const dup = opt.key && r.bool(0.5);
    const node = dep => {
      left--;
      const n = { k: dup ? 'abcd'[dep] + r.int(0, 3) : 'n' + nm++, v: -1, c: [] };
      if (dep < 3 && left > 0 && r.bool(dep === 0 ? 0.95 : 0.55)) for (let q = r.int(1, 3); q > 0 && left > 0; q--) n.c.push(node(dep + 1));
      if (!n.c.length) n.v = r.int(1, 9); else if (r.bool(0.2)) n.v = r.int(5, 20);
      return n;
    };
    while (left > 0 && d.tree.length < 4) d.tree.push(node(0));
    return d;
  }
  const n = r.int(2, 8);
  const order = r.shuffle(Array.from({ length: n }, (_, i) => i)); // topological order
  const name = i => (kind === 'nodes' && !opt.key ? String(i) : 'n' + i);
  const m = r.int(1, Math.min(12, n * 2));
  const span = r.pick([2, 3, n]);
  for (let q = 0; q < m; q++) {
    const a = r.int(0, n - 2), b = Math.min(n - 1, a + r.int(1, span));
    d.links.push({ s: name(order[a]), t: name(order[b]), v: r.int(1, 9) });
  }
  if (kind === 'nodes') {
    for (let i = 0; i < n; i++) d.nodes.push({ k: 'n' + i, v: r.bool(0.3) ? r.int(0, 25) : -1 });
    if (r.bool(0.3)) d.links.splice(r.int(0, d.links.length), 0, { s: name(0), t: 'zz', v: 3 });
    if (!opt.key && d.links.some(l => l.t === 'zz')) d.links.forEach(l => { if (l.t === 'zz') l.t = '99'; });
    if (opt.divide) d.links.forEach(l => { if (r.bool(0.4)) l.v = -1; });
    if (opt.divide && r.bool(0.35)) { // a node with nothing left for its links without value
      const l = r.pick(d.links), side = r.pick(['s', 't']), x = d.nodes.find((y, i) => name(i) === l[side]);
      if (x) { l.v = -1; x.v = d.links.reduce((t, q) => t + (q[side] === l[side] && q.v > 0 ? q.v : 0), 0); const y = d.nodes.find((z, i) => name(i) === l[side === 's' ? 't' : 's']); if (y && r.bool()) y.v = r.int(20, 60); }
    }
    if (opt.divide && !divisible(d, name)) return mkData(kind, opt);
  }
  return d;
}
function divisible(d, name) { // every derived value is an integer of at least 1
  const own = {}; d.nodes.forEach((x, i) => (own[name(i)] = x.v));
  const ls = d.links.filter(l => l.s in own && l.t in own).map(l => Object.assign({}, l));
  for (const l of ls.filter(x => x.v < 0)) {
    const c = [];
    for (const side of ['s', 't']) { const mine = ls.filter(x => x[side] === l[side]); if (own[l[side]] >= 0) c.push((own[l[side]] - mine.reduce((s, x) => s + Math.max(x.v, 0), 0)) / mine.filter(x => x.v < 0).length); }
    if (!c.length) return false;
    const v = Math.min(...c);
    if (!Number.isInteger(v) || v < 0) return false;
    l.v = v;
  }
  return true;
}
const NONE = { t: 'none', v: 0, tab: [] };
const px = v => ({ t: 'px', v, tab: [] }), fn = (lo, hi) => ({ t: 'fn', v: 0, tab: [r.int(lo, hi), r.int(lo, hi)] });
function mkOpt(key, divide) {
  const nwt = r.pick(['px', 'px', 'pct', 'fn']);
  const o = {
    align: r.pick(['left', 'right', 'center', 'justify', 'start', 'end', 'justify']), vert: r.bool(0.35), inv: r.bool(0.3), cross: r.pick(['start', 'end', 'middle', 'middle', 'parent']),
    gap: r.pick([8, 2, 0, 5, 12, 40]), gapfn: r.bool(0.15) ? [r.int(0, 6), r.int(0, 6)] : [], gappos: r.pick(['middle', 'middle', 'start', 'end']),
    nw: nwt === 'px' ? px(r.pick([24, 6, 10])) : nwt === 'pct' ? { t: 'pct', v: r.pick([10, 25, 50, 100]), tab: [] } : fn(3, 12),
    lw: nwt === 'pct' ? NONE : nwt === 'fn' ? (r.bool() ? px(r.int(3, 15)) : fn(3, 15)) : r.bool(0.3) ? px(r.int(3, 20)) : NONE,
    minstep: r.bool(0.2) ? r.int(5, 40) : -1, equal: r.bool(0.15), nh: r.bool(0.8) ? NONE : r.bool() ? px(r.int(2, 10)) : fn(2, 10), lh: r.bool(0.8) ? NONE : r.bool() ? px(r.int(1, 5)) : fn(1, 5),
    minn: r.bool(0.3) ? r.int(0, 12) : -1, maxn: r.bool(0.2) ? r.int(4, 30) : -1, minl: r.bool(0.2) ? r.int(0, 6) : -1, maxl: r.bool(0.2) ? r.int(2, 12) : -1,
    iter: r.pick([6, 6, 0, 1, 12]), sort: r.pick(['none', 'none', 'asc', 'desc']), lsort: r.pick(['none', 'none', 'asc', 'desc']), over: r.pick(['none', 'none', 'none', 'start', 'center', 'end']),
    divide, drop: r.bool(0.7), key, haslay: r.bool(0.15), lay: []
  };
  return o;
}
const mkBox = z => { const x = z ? 0 : r.int(0, 20), y = z ? 0 : r.int(0, 20), b = [x, y, x + r.int(20, 80), y + r.int(20, 80)]; return b; };
for (let i = 0; i < M; i++) {
  const z = r.bool(0.4);
  const kind = r.pick(['links', 'nodes', 'nodes', 'tree']);
  const key = kind === 'links' ? r.bool() : r.bool(0.6), divide = kind === 'nodes' && r.bool(0.3);
  const withLay = (o, d) => { if (kind === 'links') o.haslay = false; if (o.haslay) { // layers along the links, some left to the depth
    const ks = kind === 'tree' ? [] : d.nodes.map(n => n.k);
    if (kind === 'tree') { o.haslay = false; return o; }
    const nm = x => (key ? x : 'n' + x), l = {}; let ch = true;
    ks.forEach(k => (l[k] = r.int(0, 2)));
    while (ch) { ch = false; d.links.forEach(e => { const a = nm(e.s), b = nm(e.t); if (a in l && b in l && l[b] <= l[a]) { l[b] = l[a] + r.int(1, 2); ch = true; } }); }
    o.lay = ks.filter(() => r.bool(0.85)).map(k => ({ k, d: l[k] }));
  } return o; };
  const data = mkData(kind, { key, divide }), cfg = { data, opt: withLay(mkOpt(key, divide), data), box: mkBox(z), corners: !z };
  const cmds = []; let cur = data;
  for (let k = r.int(1, 4); k > 0; k--) {
    cmds.push({ op: 'run' });
    const c = r.int(0, 3);
    if (c === 0) { cur = mkData(kind, { key, divide }); cmds.push({ op: 'data', data: cur }); }
    else if (c === 1) cmds.push({ op: 'opt', opt: withLay(mkOpt(key, divide), cur) });
    else if (c === 2) cmds.push({ op: 'box', box: mkBox(z) });
  }
  cmds.push({ op: 'run' });
  exec(cfg, cmds, r);
}
L.done();
