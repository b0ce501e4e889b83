// Axes, grids and legends of a view.
const L = require('../lib.cjs');
const V = L.V;
const RNG = {
  lx: [[0, 1], [0, 1]], ly: [[0, 1], [0, 1]], bd: [[0, 90], [10, 50]], oz: [[1, 2, 3], [4, 5]], ln: [[5, 50], [50, 5]],
  oc: [['#ff0000', '#00ff00'], ['#0000ff', '#ffff00', '#00ffff']], lc: [['#ff0000', '#00ff00', '#ff00ff'], ['#0000ff', '#ffff00', '#00ffff']],
  os: [['circle', 'square', 'diamond'], ['star', 'wye']]
};
const TYPE = { lx: 'linear', ly: 'linear', bd: 'band', oz: 'ordinal', ln: 'linear', oc: 'ordinal', lc: 'linear', os: 'ordinal' };
const TAGS = ['axis', 'circleAxis', 'grid', 'circleGrid', 'discreteLegend', 'colorLegend', 'sizeLegend'];
for (const t of ['t1', 't2']) {
  const components = {};
  TAGS.forEach(k => (components[k] = { vgTag: t + k }));
  components.discreteLegend.items = [{ shape: { vgTag: t } }];
  V.ThemeManager.registerTheme(t, { components });
}
const num = x => /^-?[0-9.]+$/.test(x);
const domv = (s, d) => (TYPE[s] === 'linear' ? d.map(Number) : d.slice());
const nn = x => (x === -1 ? undefined : x);
const F = x => (typeof x === 'number' ? L.FX(x, 1000) : -99999999);
const P = p => (p ? [F(p.x), F(p.y)] : [-99999999, -99999999]);
const S = x => (x === undefined || x === null ? '' : String(x));
const items = xs => (xs || []).map(i => [F(i.id), S(i.label), F(i.value), S(i.rawValue)]);
function exec(cfg, cmds, rnd) {
  L.mark({ cfg, cmds });
  L.emit({ op: 'reset', cfg });
  const view = L.mkView({ theme: rnd.bool() ? cfg.th : undefined });
  if (view.getCurrentTheme() !== V.ThemeManager.getTheme(cfg.th)) view.theme(cfg.th);
  const st = JSON.parse(JSON.stringify(cfg));
  const coord = view.coordinate(cfg.co.t).id('c');
  const setCo = v => {
    if (cfg.co.t === 'cartesian') coord.start([v[0], v[1]]).end([v[2], v[3]]);
    else coord.start([v[0], v[1]]).end([v[2], v[3]]).origin([v[4], v[5]]);
  };
  setCo(cfg.co.v);
  const dims = cfg.co.t === 'cartesian' ? { lx: 'x', ly: 'y' } : { lx: 'theta', ly: 'r' };
  const range = s => {
    const sc = st.sc[s];
    if (!dims[s]) return s === 'lc' ? RNG.lc[sc.rng].slice(0, sc.dom.length) : RNG[s][sc.rng].slice();
    const r = { coordinate: 'c', dimension: dims[s] };
    if (sc.rev || rnd.bool()) r.reversed = sc.rev;
    if (sc.sub || rnd.bool()) r.isSubshaft = sc.sub;
    return r;
  };
  const scales = {};
  Object.keys(cfg.sc).forEach(s => (scales[s] = view.scale(TYPE[s]).id(s).domain(domv(s, cfg.sc[s].dom)).range(range(s))));
  const sig = cfg.asig ? view.signal(cfg.sig).id('ticks') : null;
  const ref = s => (rnd.bool() ? s : scales[s]);
  const bsig = cfg.gsig ? view.signal(cfg.base).id('base') : null;
  const gbase = n => (bsig ? { signal: 'base' } : nn(n));
  const atick = n => (sig ? { signal: 'ticks' } : nn(n));
  const encs = o => { const a = {}; if (o.own) a.vgTag = o.own; if (o.pos) { a.x = o.pos[0]; a.y = o.pos[1]; } if (o === st.lg) a.railWidth = 100, a.railHeight = 10; return { update: a }; };
  const R = view.rootMark;
  const build = (type, spec, api) => {
    const spec0 = Object.assign({ type: 'component', componentType: type }, cfg.skip || rnd.bool() ? { skipTheme: cfg.skip } : {});
    const m = view.mark('component', R, { componentType: type });
    if (rnd.bool()) { m.parse(Object.assign(spec0, spec)); return m; }
    m.parse(spec0);
    api(m);
    return m;
  };
  const maybe = (o, k, v) => { if (v !== undefined) o[k] = v; return o; };
  // the target may be created before or after the component that refers to it
  const A = build('axis', maybe(maybe(maybe({ id: 'A', scale: cfg.ax.scale, encode: encs(st.ax) }, 'tickCount', atick(cfg.ax.tick)), 'inside', cfg.ax.ins || undefined), 'baseValue', nn(cfg.ax.base)),
    m => { m.id('A').scale(ref(cfg.ax.scale)).encode(encs(st.ax).update); if (sig || cfg.ax.tick > 0) m.tickCount(atick(cfg.ax.tick)); m.inside(cfg.ax.ins); m.baseValue(nn(cfg.ax.base)); });
  const G = build('grid', maybe(maybe(maybe({ id: 'G', scale: cfg.gr.scale, encode: encs(st.gr), target: cfg.gr.tgt ? 'A' : undefined, gridShape: cfg.gr.shape }, 'tickCount', nn(cfg.gr.tick)), 'inside', cfg.gr.ins || undefined), 'baseValue', gbase(cfg.gr.base)),
    m => { m.id('G').scale(ref(cfg.gr.scale)).encode(encs(st.gr).update); if (cfg.gr.tgt) m.target(rnd.bool() ? A : 'A'); if (cfg.gr.tick > 0) m.tickCount(cfg.gr.tick); m.gridShape(cfg.gr.shape); m.inside(cfg.gr.ins); m.baseValue(gbase(cfg.gr.base)); });
  const lspec = { id: 'L', scale: cfg.lg.scale, encode: encs(st.lg), legendType: cfg.lg.type };
  if (cfg.lg.shape) lspec.shapeScale = cfg.lg.shape;
  const G2 = build('legend', lspec, m => { if (rnd.bool() && cfg.lg.shape) { m.shapeScale(ref(cfg.lg.shape)); m.scale(ref(cfg.lg.scale)); } else { m.scale(ref(cfg.lg.scale)); if (cfg.lg.shape) m.shapeScale(ref(cfg.lg.shape)); } m.legendType(cfg.lg.type).encode(encs(st.lg).update); });
  const Lg = G2;
  const ticksOf = () => {
    const o = {};
    Object.keys(scales).forEach(s => {
      if (!['lx', 'ly', 'bd'].includes(s)) return;
      const sc = scales[s].getScale();
      const f = n => sc.tickData(n).map(t => [F(t.index), S(t.tick), F(t.value), S(t.tick)]);
      o[s] = { d: f(undefined), 2: f(2), 3: f(3), 5: f(5), 8: f(8) };
    });
    return o;
  };
  const geo = (a, g) => ({
    tag: S(a.vgTag), pos: [F(a.x), F(a.y)], start: P(a.start), end: P(a.end), factor: a.verticalFactor === undefined ? 99 : a.verticalFactor, center: P(a.center), inner: F(a.innerRadius), radius: F(a.radius), a0: F(a.startAngle), a1: F(a.endAngle), inside: !!a.inside,
    kind: /circle/i.test(g.constructor.name) ? 'circle' : 'line'
  });
  const one = (m, name) => {
    const es = m.elements.filter(e => e.getGraphicItem() && e.getGraphicItem().parent);
    if (es.length !== 1 || m.elements.length !== 1) throw new Error(name + ' has ' + m.elements.length + ' elements');
    const kids = m.graphicParent.getChildren().filter(g => g.name === es[0].getGraphicItem().name);
    if (kids.length !== 1) throw new Error(name + ' is shown ' + kids.length + ' times');
    return es[0].getGraphicItem();
  };
  const observe = line => {
    line.dom = {};
    Object.keys(scales).forEach(s => (line.dom[s] = scales[s].getScale().domain().map(String)));
    line.ticks = ticksOf();
    const src = st.ax.scale;
    const z = [[0, 0], [0, 0]];
    line.pts = { none: z, b1: z, b7: z, b30: z };
    let g = one(A, 'axis'), a = g.attribute;
    const nest = a.items && a.items.length === 1 && Array.isArray(a.items[0]);
    line.axis = Object.assign(geo(a, g), { nest: !!nest, items: nest ? items(a.items[0]) : [] });
    g = one(G, 'grid'); a = g.attribute;
    const gn = a.items && a.items.length > 0 && Array.isArray(a.items[0]);
    line.grid = Object.assign(geo(a, g), { nest: !!gn, items: gn ? [] : items(a.items), type: S(a.type), closed: a.closed === true });
    if (cfg.co.t === 'polar') {
      const c = coord.output(), f = b => { const p = c.getAxisPointsByDimension('r', st.sc.ly.sub, st.sc.ly.rev, b); return [P(p[0]), P(p[1])]; };
      line.pts = { none: f(undefined), b1: f(1), b7: f(7), b30: f(30) };
    }
    g = one(Lg, 'legend'); a = g.attribute;
    line.legend = {
      kind: g.name.replace('Legend', ''), tag: S(a.vgTag), min: S(a.min), max: S(a.max), colors: (a.colors || []).map(String), value: (Array.isArray(a.value) ? a.value : []).map(String),
      items: (a.items || []).map(i => ({ label: i.label, id: S(i.id), index: F(i.index) / 1000, fill: S(i.shape && i.shape.fill), stroke: S(i.shape && i.shape.stroke), sym: S(i.shape && i.shape.symbolType), tag: S(i.shape && i.shape.vgTag) }))
    };
  };
  const upd = (m, o) => m.encode(encs(o).update);
  for (const e of cmds) {
    const line = Object.assign({}, e);
    try {
      if (e.op === 'co') { st.co.v = e.v; setCo(e.v); }
      else if (e.op === 'dom') { st.sc[e.s].dom = e.v; scales[e.s].domain(domv(e.s, e.v)); if (e.s === 'lc') scales.lc.range(range('lc')); }
      else if (e.op === 'rng') { st.sc[e.s].rng = e.v; scales[e.s].range(range(e.s)); }
      else if (e.op === 'bind') { Object.assign(st.sc[e.s], { rev: e.rev, sub: e.sub }); scales[e.s].range(range(e.s)); }
      else if (e.op === 'axis') {
        st.ax[e.k] = e.v;
        if (e.k === 'scale') A.scale(ref(e.v)); else if (e.k === 'tick') A.tickCount(atick(e.v)); else if (e.k === 'ins') A.inside(e.v); else if (e.k === 'base') A.baseValue(nn(e.v)); else upd(A, st.ax);
      } else if (e.op === 'grid') {
        st.gr[e.k] = e.v;
        if (e.k === 'tgt') G.target(e.v ? (rnd.bool() ? A : 'A') : null); else if (e.k === 'scale') G.scale(ref(e.v)); else if (e.k === 'tick') G.tickCount(nn(e.v)); else if (e.k === 'ins') G.inside(e.v); else if (e.k === 'base') G.baseValue(gbase(e.v)); else if (e.k === 'shape') G.gridShape(e.v); else upd(G, st.gr);
      } else if (e.op === 'legend') {
        st.lg[e.k] = e.v;
        if (e.k === 'scale') Lg.scale(ref(e.v)); else if (e.k === 'shape') Lg.shapeScale(e.v ? ref(e.v) : null); else upd(Lg, st.lg);
      } else if (e.op === 'ltype') { st.lg.type = e.v; st.lg.scale = e.s; if (rnd.bool()) { Lg.scale(ref(e.s)); Lg.legendType(e.v); } else { Lg.legendType(e.v); Lg.scale(ref(e.s)); } }
      else if (e.op === 'theme') view.setCurrentTheme(e.v, rnd.bool());
      else if (e.op === 'base') { if (rnd.bool()) view.updateSignal('base', e.v); else bsig.value(e.v); }
      else if (e.op === 'sig') { if (rnd.bool()) view.updateSignal('ticks', e.v); else sig.value(e.v); }
      else if (e.op === 'run') { view.run(); observe(line); }
    } catch (err) { L.emit({ op: 'threw', at: e.op, msg: String(err && err.stack).slice(0, 300) }); L.dropView(view); return; }
    L.emit(line);
  }
  L.dropView(view);
}
let i = 0;
for (const b of L.behaviours()) exec(b[0].cfg, b.slice(1), L.rng(L.seed * 7907 + ++i));
// longer random histories
const N = L.quick ? 60 : 900;
const BASES = [-1, 7, 30];
for (let j = 0; j < N; j++) {
  const r = L.rng(L.seed * 104729 + j + 17);
  const polar = r.bool(0.4);
  const cov = () => (polar ? [r.int(0, 20), r.int(0, 20), r.int(80, 120), r.int(80, 120), r.int(30, 70), r.int(30, 70)] : [r.int(0, 20), r.int(0, 20), r.int(40, 200), r.int(40, 150)]);
  const ab = ['a', 'b', 'c', 'd'];
  const doms = s => (TYPE[s] === 'linear' ? (s === 'lc' && r.bool() ? ['0', String(r.int(1, 9)), '20'] : [String(r.int(-5, 4)), String(r.int(5, 40))]) : s === 'os' ? ab.slice() : r.bool(0.15) ? ['b', 'a', 'b'] : r.shuffle(ab).slice(0, r.int(1, 4)));
  const sc = {};
  Object.keys(TYPE).forEach(s => (sc[s] = { dom: TYPE[s] === 'band' ? r.shuffle(ab).slice(0, 3) : doms(s), rev: r.bool(0.3), sub: r.bool(0.3), rng: r.int(0, 1) }));
  const bases = polar ? [-1, 1] : BASES;
  const asc = () => r.pick(['lx', 'ly', 'bd']);
  const tick = () => r.pick([-1, 2, 3, 5, 8]);
  const LT = [['auto', 'oc'], ['auto', 'ln'], ['auto', 'lc'], ['auto', 'oz'], ['discrete', 'oc'], ['discrete', 'ln'], ['size', 'ln'], ['size', 'lc'], ['color', 'lc']];
  const lt = r.pick(LT);
  const cfg = {
    co: { t: polar ? 'polar' : 'cartesian', v: cov() }, sc, th: r.pick(['t1', 't2']), skip: r.bool(0.2), asig: r.bool(0.3), sig: r.pick([2, 3, 5, 8]), gsig: r.bool(0.3), base: polar ? 1 : r.pick([7, 30]),
    ax: { scale: asc(), tick: tick(), ins: r.bool(0.3), base: r.pick(bases), own: '', pos: [r.int(0, 9), r.int(0, 9)] },
    gr: { scale: r.pick(["lx", "ly"]), tgt: r.bool(), tick: tick(), ins: r.bool(0.3), base: r.pick(bases), own: '', shape: r.pick(['line', 'polygon', 'line']) },
    lg: { scale: lt[1], type: lt[0], shape: r.pick(['', 'os']), own: '' }
  };
  const cur = JSON.parse(JSON.stringify(cfg));
  const cmds = [{ op: 'run' }];
  const n = r.int(3, L.quick ? 6 : 10);
  for (let q = 0; q < n; q++) {
    const m = r.int(1, 3);
    for (let p = 0; p < m; p++) {
      const o = r.int(0, 11);
      if (o === 0) cmds.push({ op: 'co', v: cov() });
      else if (o === 1) { const s = r.pick(['lx', 'ly', 'oc', 'oz', 'ln', 'lc', 'bd']); cmds.push({ op: 'dom', s, v: TYPE[s] === 'band' ? r.shuffle(ab).slice(0, r.int(1, 4)) : doms(s) }); }
      else if (o === 2) cmds.push({ op: 'rng', s: r.pick(['oc', 'lc', 'os', 'ln']), v: r.int(0, 1) });
      else if (o === 3) cmds.push({ op: 'bind', s: r.pick(['lx', 'ly']), rev: r.bool(), sub: r.bool() });
      else if (o <= 5) { const k = r.pick(['scale', 'tick', 'ins', 'base', 'own', 'pos']); cmds.push({ op: 'axis', k, v: k === 'scale' ? asc() : k === 'tick' ? tick() : k === 'ins' ? r.bool() : k === 'base' ? r.pick(bases) : k === 'own' ? r.pick(['mine', 'own']) : [r.int(0, 9), r.int(0, 9)] }); if (k === 'tick' && cfg.asig) cmds.pop(); }
      else if (o <= 7) { const k = r.pick(['scale', 'tick', 'ins', 'base', 'own', 'shape', 'tgt', 'tgt']); cmds.push({ op: 'grid', k, v: k === "scale" ? r.pick(["lx", "ly"]) : k === "tick" ? tick() : k === "ins" || k === "tgt" ? r.bool() : k === 'base' ? r.pick(bases) : k === 'own' ? r.pick(['mine', 'own']) : r.pick(['line', 'polygon']) }); if (k === 'base' && cfg.gsig) cmds.pop(); }
      else if (o === 8) { const k = r.pick(['shape', 'own']); cmds.push({ op: 'legend', k, v: k === 'shape' ? r.pick(['', 'os']) : r.pick(['mine', 'own']) }); }
      else if (o === 9) { const t = r.pick(LT); cmds.push({ op: 'ltype', v: t[0], s: t[1] }); }
      else if (o === 10) cmds.push({ op: 'theme', v: r.pick(['t1', 't2']) });
      else if (cfg.gsig && !polar && r.bool()) cmds.push({ op: 'base', v: r.pick([7, 30]) });
      else if (cfg.asig) cmds.push({ op: 'sig', v: r.pick([2, 3, 5, 8]) });
    }
    cmds.push({ op: 'run' });
  }
  exec(cfg, cmds, r);
}
L.done();
