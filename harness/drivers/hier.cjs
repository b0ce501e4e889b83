// Hierarchy layouts as transforms of a view: treemap, sunburst, tree, circle packing.
const L = require('../lib.cjs');
const V = L.V;
V.vhier.registerAllHierarchyTransforms();
const U = 20, A4 = 1e4;
const len = x => L.FX(x, U), ang = x => L.FX(x, A4);
const raw = n => { const o = { k: n.k }; if (n.v >= 0) o.value = n.v; if (n.c.length) o.children = n.c.map(raw); return o; };
const arr = f => (f.c ? f.v[0] : f.v.slice());
const pos = p => (p.p ? p.v + '%' : p.v);
const label = l => (l.has ? { align: l.al, rotate: l.rot, offset: l.off } : false);
function options(o, rnd, sig) {
  const t = { type: o.type };
  if (o.flat || rnd.bool()) t.flatten = o.flat;
  if (o.maxd >= 0) t.maxDepth = sig('maxd', o.maxd);
  if (o.key) t.nodeKey = rnd.bool() ? 'k' : d => d.k;
  const opt = (name, f, d) => { if (!(f.c && f.v[0] === d) || rnd.bool()) t[name] = arr(f); };
  if (o.type === 'treemap') {
    opt('gapWidth', o.gap, 0); opt('padding', o.pad, 0); opt('labelPadding', o.lab, 0); opt('minVisibleArea', o.mva, 10);
    if (o.lpos !== 'top' || rnd.bool()) t.labelPosition = o.lpos;
    if (o.split !== 'binary' || rnd.bool()) t.splitType = sig('split', o.split);
    if (o.mca >= 0) t.minChildrenVisibleArea = o.mca;
    if (o.mcs >= 0) t.minChildrenVisibleSize = o.mcs;
  } else if (o.type === 'sunburst') {
    t.startAngle = o.sa / A4; t.endAngle = o.ea / A4; t.center = o.cen.map(pos);
    t.innerRadius = o.inn.c ? pos(o.inn.v[0]) : o.inn.v.map(pos); t.outerRadius = o.out.c ? pos(o.out.v[0]) : o.out.v.map(pos);
    opt('gapRadius', o.gapr, 0);
    const ls = o.label.v.map(label);
    if (!o.label.c || ls[0]) t.label = o.label.c ? (ls[0].align === 'center' && ls[0].rotate === 'radial' && !ls[0].offset && rnd.bool() ? true : ls[0]) : ls;
  } else if (o.type === 'tree') {
    if (o.dir !== 'horizontal' || rnd.bool()) t.direction = o.dir;
    if (o.lay !== 'orthogonal' || rnd.bool()) t.layoutType = o.lay;
    if (o.al !== 'depth' || rnd.bool()) t.alignType = o.al;
    if (o.gap >= 0) t.minNodeGap = o.gap;
    if (o.lw >= 0) t.linkWidth = o.lw;
  } else {
    if (o.sort === 'none') t.nodeSort = false;
    else if (o.sort === 'asc') t.nodeSort = (a, b) => a.value - b.value;
    else if (rnd.bool()) t.nodeSort = (a, b) => b.value - a.value;
    opt('padding', o.pad, 0);
    if (o.rad) t.setRadius = n => 2 + n.value;
    if (o.root || rnd.bool()) t.includeRoot = o.root;
  }
  return t;
}
function exec(cfg, cmds, rnd) {
  L.mark({ cfg, cmds });
  L.emit({ op: 'reset', cfg });
  const view = L.mkView({ width: 60, height: 60 });
  let { tree, opt, box } = cfg;
  const corners = cfg.corners;
  const names = corners ? ['x0', 'y0', 'x1', 'y1'] : ['', '', 'width', 'height'];
  const signals = {};
  const sig = (n, v) => { if (rnd.bool(0.6)) return v; if (!signals[n]) signals[n] = view.signal(v).id(n); else signals[n].set(v); return { signal: n }; };
  names.forEach((n, i) => { if (n) view.signal(box[i]).id('b' + i); });
  const mkT = () => { const t = options(opt, rnd, sig); names.forEach((n, i) => { if (n) t[n] = { signal: 'b' + i }; }); return t; };
  let given = tree.map(raw), copy = JSON.stringify(given);
  const onMark = cfg.host === 'mark';
  const data = view.data(given).id('D');
  const m = view.mark('rect', view.rootMark).id('m').join('D', 'key').encode({ update: { width: 1, height: 1 } });
  const host = onMark ? m : data;
  host.transform([mkT()]);
  for (const e of cmds) {
    const line = Object.assign({}, e);
    try {
      if (e.op === 'tree') { tree = e.tree; given = tree.map(raw); copy = JSON.stringify(given); data.values(given); }
      else if (e.op === 'opt') { opt = e.opt; host.transform([mkT()]); }
      else if (e.op === 'box') { box = e.box; names.forEach((n, i) => { if (n) view.updateSignal('b' + i, box[i]); }); }
      else {
        view.run();
        let out = onMark ? m.elements.map(x => x.getDatum()).sort((a, b) => a.flattenIndex - b.flattenIndex) : data.output();
        let links = [], rootg = [];
        if (opt.type === 'tree' && opt.flat) { if (Array.isArray(out)) out = out[0]; links = out.links; out = out.nodes; }
        const circ = n => [len(n.x), len(n.y), len(n.radius)];
        if (opt.type === 'circlePacking' && opt.root) { const root = opt.flat ? out[0] : out.length === 1 ? out[0] : null; rootg = root ? circ(root) : []; out = opt.flat ? out.slice(1) : root ? root.children : []; }
        const list = [];
        const walk = ns => ns.forEach(n => { list.push(n); if (!opt.flat && n.children) walk(n.children); });
        walk(out);
        const cx = (box[0] + box[2]) / 2, cy = (box[1] + box[3]) / 2;
        const geo = n => {
          if (opt.type === 'treemap') return [n.x0, n.y0, n.x1, n.y1].map(len);
          if (opt.type === 'sunburst') return [len(n.innerRadius), len(n.outerRadius), ang(n.startAngle), ang(n.endAngle), len(n.x), len(n.y)];
          if (opt.type === 'circlePacking') return circ(n);
          if (opt.lay !== 'radial') return [len(n.x), len(n.y)];
          let a = Math.atan2(n.y - cy, n.x - cx); if (a < 0) a += 2 * Math.PI;
          return [ang(a), len(Math.hypot(n.x - cx, n.y - cy))];
        };
        line.same = JSON.stringify(given, (k, v) => (k.startsWith('VGRAMMAR_DATA_ID') ? undefined : v)) === copy; // joined rows are given an identifier
        line.obs = list.map(n => ({
          k: L.S(n.key), pk: n.parentKey === undefined ? '' : L.S(n.parentKey), d: L.I(n.depth), i: L.I(n.index), fi: L.I(n.flattenIndex), leaf: !!n.isLeaf, v: L.I(n.value), md: L.I(n.maxDepth),
          dl: n.datum && n.datum[n.datum.length - 1] && n.datum.length ? n.datum.length : -1, nc: n.children ? n.children.length : 0, g: geo(n),
          l: opt.type === 'treemap' && n.labelRect ? [n.labelRect.x0, n.labelRect.y0, n.labelRect.x1, n.labelRect.y1].map(len) : [],
          lb: opt.type === 'sunburst' && n.label ? [{ r: len(Math.hypot(n.label.x - n.x, n.label.y - n.y)), a: ang(Math.atan2(n.label.y - n.y, n.label.x - n.x)), al: L.S(n.label.textAlign), ang: ang(n.label.angle), mlw: n.label.maxLineWidth === undefined ? -1 : len(n.label.maxLineWidth) }] : [],
          xy: opt.type === 'tree' ? [len(n.x), len(n.y)] : []
        }));
        line.names = list.map(n => L.S(n.datum && n.datum.length && n.datum[n.datum.length - 1].k));
        line.links = links.map(l => ({ s: L.S(l.source.key), t: L.S(l.target.key), key: L.S(l.key), g: [len(l.x0), len(l.y0), len(l.x1), len(l.y1)] }));
        line.rootg = rootg;
      }
    } catch (x) { L.emit({ op: 'threw', at: e.op, err: String(x && x.stack).slice(0, 300) }); break; }
    L.emit(line);
  }
  L.dropView(view);
}
const r0 = L.rng(L.seed + 700);
for (const b of L.behaviours()) exec(b[0].cfg, b.slice(1), r0);
const r = L.rng(L.seed + 41);
const M = L.quick ? 900 : 9000;
const CC = v => ({ c: true, v: [v] });
const per = (lo, hi, p = 0.5) => (r.bool(p) ? CC(r.int(lo, hi)) : { c: false, v: Array.from({ length: r.int(1, 4) }, () => r.int(lo, hi)) });
let nm = 0;
function mkTree(kind) {
  nm = 0;
  const minv = kind === 'circlePacking' ? 1 : 0;
  const budget = r.int(1, 16);
  let left = budget;
  const node = d => {
    const n = { k: 'n' + nm++, v: -1, c: [] };
    left--;
    if (d < 4 && left > 0 && r.bool(d === 0 ? 0.9 : 0.5)) for (let q = r.int(1, 4); q > 0 && left > 0; q--) n.c.push(node(d + 1));
    if (!n.c.length) n.v = r.bool(0.1) ? minv : r.int(minv, 9);
    else if (r.bool(0.15)) n.v = r.int(1, 40);
    return n;
  };
  const roots = [node(0)];
  if (kind !== 'tree') while (left > 0 && roots.length < 5) roots.push(node(0));
  return roots;
}
const POS = [{ p: true, v: 0 }, { p: true, v: 10 }, { p: true, v: 50 }, { p: true, v: 70 }, { p: true, v: 100 }, { p: false, v: 4 }, { p: false, v: 12 }, { p: false, v: 30 }];
function mkOpt(type) {
  const o = { type, flat: r.bool(), maxd: r.bool(0.25) ? r.int(0, 3) : -1, key: r.bool() };
  const lb = () => ({ has: r.bool(0.8), al: r.pick(['start', 'end', 'center']), rot: r.pick(['tangential', 'radial']), off: r.int(-3, 5) });
  if (type === 'treemap') Object.assign(o, { gap: r.bool() ? CC(0) : per(0, 6), pad: r.bool() ? CC(0) : per(0, 6), lab: r.bool() ? CC(0) : per(0, 12), lpos: r.pick(['top', 'bottom', 'left', 'right']), mva: r.pick([CC(10), CC(0), CC(0), per(0, 400)]),
    split: r.pick(['binary', 'dice', 'slice', 'sliceDice', 'squarify']), mca: r.bool(0.15) ? r.int(1, 900) : -1, mcs: r.bool(0.15) ? r.int(1, 30) : -1 });
  else if (type === 'sunburst') {
    const list = () => Array.from({ length: r.int(1, 4) }, () => r.pick(POS));
    const inC = r.bool(0.7), outC = r.bool(0.6);
    Object.assign(o, { ...((w) => ({ sa: r.int(-w, w), ea: r.int(-w, w) }))(r.pick([70000, 140000])), cen: [r.pick(POS), r.pick(POS)], inn: inC ? { c: true, v: [r.pick(POS)] } : { c: false, v: list() }, out: outC ? { c: true, v: [r.pick(POS)] } : { c: false, v: list() },
      gapr: r.bool() ? CC(0) : per(0, 3), label: r.bool(0.4) ? { c: true, v: [Object.assign(lb(), { has: r.bool(0.6) })] } : { c: false, v: Array.from({ length: r.int(1, 4) }, lb) } });
  } else if (type === 'tree') {
    const lay = r.bool(0.25) ? 'radial' : 'orthogonal';
    const gap = lay === 'radial' ? -1 : r.bool(0.4) ? r.int(2, 12) : -1;
    const al = r.pick(['depth', 'leaf']);
    Object.assign(o, { dir: r.pick(['horizontal', 'vertical', 'LR', 'RL', 'TB', 'BT']), lay, al, gap, lw: al === 'leaf' && gap < 0 ? -1 : r.bool(0.4) ? r.int(3, 20) : -1 });
  } else Object.assign(o, { sort: r.pick(['desc', 'desc', 'asc', 'none']), pad: r.bool() ? CC(0) : per(0, 3), rad: r.bool(0.4), root: r.bool(0.3) });
  return o;
}
const mkBox = (z, w) => { const x = z ? 0 : r.int(0, 20), y = z ? 0 : r.int(0, 20), b = [x, y, x + 2 * r.int(10, 40), y + 2 * r.int(10, 40)]; return w || z ? b : r.pick([b, [b[2], b[1], b[0], b[3]], [b[2], b[3], b[0], b[1]]]); };
for (let i = 0; i < M; i++) {
  const type = r.pick(['treemap', 'treemap', 'sunburst', 'tree', 'tree', 'circlePacking']);
  const z = r.bool(0.4);
  const opt = mkOpt(type);
  const host = (type === 'treemap' || type === 'sunburst') && r.bool(0.4) ? 'mark' : 'data';
  if (host === 'mark') opt.flat = true;
  const cfg = { tree: mkTree(type), opt, box: mkBox(z), host, corners: !z };
  const cmds = [{ op: 'run' }];
  for (let q = r.int(0, 3); q > 0; q--) {
    const k = r.pick(['tree', 'opt', 'box']);
    if (k === 'tree') cmds.push({ op: 'tree', tree: mkTree(type) });
    else if (k === 'opt') { const o = mkOpt(type); if (host === 'mark') o.flat = true; cmds.push({ op: 'opt', opt: o }); }
    else cmds.push({ op: 'box', box: mkBox(z) });
    if (q === 1 || r.bool(0.7)) cmds.push({ op: 'run' });
  }
  exec(cfg, cmds, r);
}
L.done();
