// Crosshairs and tooltips: what follows the pointer over a scale, and what it says.
const L = require('../lib.cjs');
const V = L.V;
const timers = []; let tid = 1e9;
const realSet = global.setTimeout, realClear = global.clearTimeout;
// throttled handlers wait for at most 10 ms: these timers follow the test clock
global.setTimeout = (f, d, ...a) => { if (!(d > 0 && d <= 10)) return realSet(f, d, ...a); timers.push({ id: ++tid, at: L.clock.now + d, f }); return tid; };
global.clearTimeout = id => { const i = timers.findIndex(t => t.id === id); if (i >= 0) timers.splice(i, 1); else realClear(id); };
function pass(dt) {
  const end = L.clock.now + dt;
  for (;;) {
    timers.sort((a, b) => a.at - b.at || a.id - b.id);
    if (!timers.length || timers[0].at > end) break;
    const t = timers.shift(); L.clock.now = Math.max(L.clock.now, t.at); t.f();
  }
  L.clock.now = end;
}
const C = s => ({ components: s });
V.ThemeManager.registerTheme('h1', C({
  lineCrosshair: { lineStyle: { stroke: '#000011' } }, rectCrosshair: { rectStyle: { fill: '#000012', width: 16, height: 28 } },
  sectorCrosshair: { sectorStyle: { fill: '#000013' }, startAngle: 0, endAngle: Math.PI / 4 },
  circleCrosshair: { lineStyle: { stroke: '#000014' }, sectorStyle: { fill: '#000016' }, startAngle: 0, endAngle: Math.PI * 2 }, polygonCrosshair: { lineStyle: { stroke: '#000015' }, startAngle: 0, endAngle: Math.PI * 2, sides: 4 }
}));
V.ThemeManager.registerTheme('h2', C({}));
const THEME = { t0: 'default', t1: 'h1', t2: 'h2' };
const None = -9999;
const F = x => L.FX(x, 100), D = x => F(x * 180 / Math.PI);
const str = x => (x === undefined || x === null ? '' : String(x));
const LET = ['a', 'b', 'c', 'd', 'e', 'f', 'g'];
const len = c => c.s * (4 * c.n - c.pi + 2 * c.po) / 4;
function setScale(sc, c) {
  const u = c.unit === 'deg' ? Math.PI / 180 : 1;
  const lo = c.base * u, hi = (c.base + len(c)) * u;
  sc.range(c.rev ? [hi, lo] : [lo, hi]);
  if (c.kind === 'linear') sc.domain([0, len(c) * c.dk]);
  else { sc.domain(LET.slice(0, c.n)); sc.configure(c.kind === 'band' ? { paddingInner: c.pi / 4, paddingOuter: c.po / 4 } : { padding: c.po / 4 }); }
}
const real = x => Object.assign({}, x, { v: x.v === None ? null : x.v, s: x.s || null });
const rowSpec = (r, how) => {
  const o = {};
  if (r.vis === 'odd') o.visible = d => d.v % 2 === 1; else if (r.vis === 'no') o.visible = false; else if (r.vis === 'nil') o.visible = () => null;
  for (const p of ['key', 'value', 'symbol']) {
    const q = r[p];
    if (q.t === 'none') continue;
    o[p] = q.t === 'text' ? q.v : q.t === 'field' ? { field: how.bool() ? q.v : d => d[q.v] } : q.v === 'obj' ? d => (d.v === null ? undefined : { [p === 'symbol' ? 'symbolType' : 'text']: d.k }) : d => d[q.v];
  }
  return o;
};
const rowOut = r => ({ vis: r.visible !== false, key: str(r.key && r.key.text), value: str(r.value && r.value.text), symbol: str(r.shape && r.shape.symbolType) });
function observe(i) {
  const o = i.o, c = i.it._crosshairComponent || i.it._tooltipComponent;
  if (!c) return { name: o.name, vis: false, sh: 'gone' };
  const on = g => { for (let x = g; x; x = x.parent) if (x.attribute.visible === false) return false; return true; };
  if (o.kind !== 'crosshair') {
    const vis = on(c) && c.attribute.visible === true && c.children.length > 0 && c.children.some(x => x.attribute.visible !== false);
    if (!vis) return { name: o.name, vis };
    const a = c.attribute, b = a.parentBounds;
    // a visible title text which is drawn is the one of the attribute
    return { name: o.name, vis, sh: 'tip', p: [F(a.pointerX), F(a.pointerY)], bounds: b ? [F(b.x1), F(b.y1), F(b.x2), F(b.y2)] : [], hasTitle: !!a.title, title: a.title ? rowOut(a.title) : rowOut({ visible: false }), rows: (a.content || []).map(rowOut), off: a.offsetX === undefined ? None : F(a.offsetX) };
  }
  const g = c.children[0];
  const vis = !!g && on(g);
  if (!vis) return { name: o.name, vis };
  const a = g.attribute, m = g.globalTransMatrix;
  const paint = x => str(Array.isArray(x) ? x[0] : x);
  const P = p => ({ x: m.a * p.x + m.c * p.y + m.e, y: m.b * p.x + m.d * p.y + m.f });
  if (g.type === 'line') {
    const [p, q] = a.points.map(P);
    return { name: o.name, vis, sh: 'line', v: [F(p.x), F(p.y), F(q.x), F(q.y)], len: F(Math.hypot(q.x - p.x, q.y - p.y)), deg: D(Math.atan2(q.y - p.y, q.x - p.x)), paint: paint(a.stroke) };
  }
  if (g.type === 'rect') { const p = P({ x: 0, y: 0 }); return { name: o.name, vis, sh: 'rect', v: [F(p.x), F(p.y), F(a.width), F(a.height)], paint: paint(a.fill) }; }
  if (g.type === 'arc') return { name: o.name, vis, sh: 'arc', v: [F(m.e), F(m.f), a.innerRadius === undefined ? 0 : F(a.innerRadius), F(a.outerRadius)], mid: D((a.startAngle + a.endAngle) / 2), wide: D(a.endAngle - a.startAngle), paint: paint(o.shape === 'line' ? a.stroke : a.fill) };
  const pts = String(a.path).match(/-?[\d.]+(e-?\d+)?,-?[\d.]+(e-?\d+)?/g).map(s => { const [x, y] = s.split(',').map(Number); return P({ x, y }); });
  const n = pts.length - 1, cx = pts.slice(0, n).reduce((s, p) => s + p.x, 0) / n, cy = pts.slice(0, n).reduce((s, p) => s + p.y, 0) / n;
  return { name: o.name, vis, sh: 'polygon', v: [F(cx), F(cy), n, F(Math.hypot(pts[0].x - cx, pts[0].y - cy))], paint: paint(a.stroke) };
}
function exec(beh, how) {
  const cfg = beh[0].cfg;
  L.emit(Object.assign({}, beh[0]));
  const view = L.mkView({ width: cfg.vw, height: cfg.vh, padding: 0 });
  try {
    view.theme(THEME[cfg.th]);
    const sc = view.scale(cfg.sc.kind).id('s'); setScale(sc, cfg.sc);
    const outer = view.group(view.rootMark).encode({ x: cfg.ox, y: cfg.oy, width: cfg.vw, height: cfg.vh });
    const g = view.group(outer).encode({ x: cfg.cx - cfg.ox, y: cfg.cy - cfg.oy, width: cfg.w, height: cfg.h }).id('g').name('box');
    const d = view.data(cfg.rows.map(real)).id('d');
    const M = { g };
    for (const n of ['A', 'B']) M[n] = view.mark(n === 'A' ? 'symbol' : 'rect', g).join(d, 'k').encode({ x: q => q.v || 0, y: 20, width: 4, height: 4, size: 5, fill: 'red' }).id(n);
    view.run();
    const stage = view.renderer.stage();
    const live = [];
    const el = e => { const m = M[e.over]; if (!m) return stage; const x = e.over === 'g' ? m.elements[0] : m.elements.find(q => q.key === e.k); return x ? x.getGraphicItem() : stage; };
    const sel = ms => (ms.length === 1 ? how.pick(['#' + ms[0], ['#' + ms[0]], M[ms[0]], [M[ms[0]]]]) : how.pick([ms.map(x => '#' + x), ms.map(x => M[x])]));
    const bind = o => {
      const sp = { id: 'i' + o.name };
      if (o.trig !== 'pointermove' || how.bool(0.3)) sp.trigger = o.trig;
      if (o.off !== 'pointerleave' || how.bool(0.3)) sp.triggerOff = o.off;
      if (o.kind !== 'tooltip') { sp.scale = how.bool() ? 's' : sc; sp.container = how.pick(['#g', M.g, '@box']); }
      if (o.kind === 'crosshair') {
        if (o.type !== 'x' || how.bool()) sp.crosshairType = o.type;
        if (o.shape !== 'line' || how.bool()) sp.crosshairShape = o.shape;
        const add = {};
        if (o.radius !== None) { if (o.rvia === 'add') add.radius = o.radius; else sp.radius = o.radius; }
        const ctr = { x: cfg.ctr[0], y: cfg.ctr[1] };
        if (o.cvia === 'add') add.center = ctr; else if (o.cvia === 'config') sp.center = ctr;
        if (o.rs !== None) add.rectStyle = { width: o.rs, height: o.rs + 3 };
        if (o.paint !== '') add[o.shape === 'line' || o.type === 'radius-polygon' ? 'lineStyle' : o.type === 'x' || o.type === 'y' ? 'rectStyle' : 'sectorStyle'] = Object.assign(add.rectStyle || {}, { [o.shape === 'line' || o.type === 'radius-polygon' ? 'stroke' : 'fill']: o.paint });
        if (Object.keys(add).length) sp.attributes = how.bool() ? add : () => add;
      } else {
        sp.selector = sel(o.marks);
        const ti = o.title, co = o.content;
        const cb = (rows, f) => q => rows.map(r => { const dd = f ? q : q; return { value: { text: r }, key: { text: Array.isArray(dd) ? dd.map(x => x.k).join('+') : dd.k } }; });
        if (ti.t === 'text') sp.title = ti.v; else if (ti.t === 'row') sp.title = rowSpec(ti.r, how); else if (ti.t === 'fn') { const f = cb([ti.v]); sp.title = how.bool() ? q => f(q)[0] : q => f(q).concat([{ value: { text: 'no' } }]); }
        if (co.t === 'rows') { const rs = co.r.map(r => rowSpec(r, how)); sp.content = rs.length === 1 && how.bool() ? rs[0] : rs; } else if (co.t === 'fn') { const f = cb(co.v); sp.content = co.v.length === 1 && how.bool() ? q => f(q)[0] : f; }
        if (o.addx !== None) sp.attributes = how.bool() ? { offsetX: o.addx } : () => ({ offsetX: o.addx });
        if (o.kind === 'dimension-tooltip') {
          sp.tooltipType = o.type;
          if (o.cvia !== 'default') sp.center = { x: cfg.ctr[0], y: cfg.ctr[1] };
          sp.target = { data: how.bool() ? 'd' : d, filter: o.filter === 'c' ? 'c' : (q, val) => (q.v === null ? false : Math.abs(q.v - val) <= o.tol) };
          if (o.avoid.length) sp.avoidMark = o.avoid.map(x => '#' + x);
        }
      }
      live.push({ o, it: view.interaction(o.kind, sp) });
    };
    for (const e of beh.slice(1)) {
      const line = Object.assign({}, e);
      pass(e.dt);
      if (e.op === 'bind') bind(e.o);
      else if (e.op === 'unbind') {
        const x = live.find(i => i.o.name === e.v);
        if (e.by === 'all') { view.removeAllInteractions(); live.length = 0; }
        else { if (e.by === 'inst') view.removeInteraction(x.it); else if (e.by === 'id') view.removeInteraction(null, 'i' + e.v); live.splice(live.indexOf(x), 1); }
      } else if (e.op === 'rebind') { const x = live.find(i => i.o.name === e.v); x.it.unbind(); x.it.bind(); }
      else if (e.op === 'rows') { d.values(e.rows.map(real)); view.run(); }
      else if (e.op === 'scale') { setScale(sc, e.sc); view.run(); }
      else if (e.op === 'ev') {
        let x = e.x, y = e.y;
        if (e.deg !== None) { const t = (e.deg + 0.25) * Math.PI / 180, rr = e.rad + 0.25; x = cfg.ctr[0] + rr * Math.cos(t); y = cfg.ctr[1] + rr * Math.sin(t); } else { x += 0.25; y += 0.25; }
        line.px = F(x); line.py = F(y);
        const t = el(e), ev = new V.CustomEvent(e.ty);
        line.hit = t === stage ? '' : e.over;
        ev.manager = stage.eventSystem.manager; ev.canvas = { x: x + cfg.cx, y: y + cfg.cy }; ev.global = ev.canvas;
        t.dispatchEvent(ev);
      }
      line.n = stage.defaultLayer.children.filter(c => c.name === 'crosshair' || c.name === 'tooltip').length;
      line.obs = live.map(observe);
      L.emit(line);
    }
  } catch (err) { L.emit({ op: 'threw', msg: String(err && err.stack).slice(0, 500) }); }
  pass(50); timers.length = 0;
  L.dropView(view);
}
{ let i = 0; for (const b of L.behaviours()) { i++; exec(b, L.rng(L.seed * 1000 + i)); } }
const r = L.rng(L.seed + 9);
const total = L.quick ? 1500 : 15000;
for (let t = 0; t < total; t++) {
  const polar = r.bool(0.45);
  const w = r.int(10, 20) * 10, h = r.int(10, 20) * 10, ox = r.int(0, 3) * 10, oy = r.int(0, 3) * 10, cx = ox + r.int(0, 6) * 10, cy = oy + r.int(0, 6) * 10;
  const types = polar ? [r.pick(['angle', 'radius'])] : [r.pick(['x', 'y'])];
  const ty = types[0];
  const room = ty === 'x' ? w : ty === 'y' ? h : ty === 'angle' ? 360 : Math.min(w, h) / 2;
  const kind = r.pick(['band', 'band', 'point', 'linear']);
  const mkSc = n => {
    const pi = kind === 'band' ? (n === 1 ? 0 : r.pick([0, 0, 1, 2])) : kind === 'point' ? 4 : 0, po = kind === 'linear' ? 0 : r.pick([0, 0, 1, 2, 4]);
    const units = (4 * n - pi + 2 * po) / 4;
    let s = Math.max(4, Math.floor(room / Math.max(units, 1) / 4) * 4); if (s > 8 && r.bool(0.3)) s -= 4;
    const base = ty === 'angle' || ty === 'radius' ? (ty === 'radius' && r.bool(0.3) ? 4 : 0) : r.pick([0, 0, Math.max(0, Math.floor((room - s * units) / 2))]);
    return { kind, n, s, pi, po, base, rev: r.bool(0.3), unit: ty === 'angle' ? 'deg' : 'px', dk: r.pick([1, 2]) };
  };
  const n0 = kind === 'point' ? r.int(2, 5) : r.int(1, 5);
  const ctr = r.bool() ? [w / 2, h / 2] : [r.int(4, 8) * 10, r.int(4, 8) * 10];
  const mkRows = () => r.shuffle(LET).slice(0, r.int(1, 5)).map(k => ({ k, c: r.pick(LET.slice(0, 4)), v: r.bool(0.15) ? None : r.int(0, 90), s: r.pick(['', 'rect', 'circle']) }));
  const cfg = { vw: 420, vh: 400, ox, oy, cx, cy, w, h, ctr, th: r.pick(['t0', 't0', 't1', 't2']), sc: mkSc(n0), rows: mkRows() };
  const mid = ctr[0] === w / 2 && ctr[1] === h / 2;
  let rows = cfg.rows;
  const beh = [{ op: 'reset', cfg }];
  const bound = []; let nn = 0;
  const pc = () => r.pick([{ t: 'none', v: '' }, { t: 'text', v: 'T' + r.int(1, 3) }, { t: 'field', v: r.pick(['k', 'c', 'v', 's']) }, { t: 'fn', v: r.pick(['k', 'v', 'obj']) }]);
  const sy = () => r.pick([{ t: 'none', v: '' }, { t: 'text', v: 'diamond' }, { t: 'field', v: 's' }, { t: 'fn', v: 's' }]);
  const row = () => ({ vis: r.pick(['', '', '', 'odd', 'no', 'nil']), key: pc(), value: pc(), symbol: sy() });
  const bind = () => {
    const k = r.pick(['crosshair', 'crosshair', 'tooltip', 'dimension-tooltip']), name = 'n' + nn++;
    const cvia = mid ? r.pick(['default', 'config']) : 'config';
    let o;
    if (k === 'crosshair') {
      const type = ty === 'radius' ? r.pick(['radius', 'radius', 'radius-polygon']) : ty, shape = r.pick(['line', 'rect']);
      o = { name, kind: k, type, shape, radius: polar && r.bool() ? r.int(3, 9) * 10 : None, rvia: ty === 'angle' ? r.pick(['config', 'add']) : 'config', cvia: polar && r.bool(0.3) ? 'add' : cvia, rs: !polar && shape === 'rect' && kind === 'linear' && r.bool(0.4) ? r.int(2, 20) : None, paint: r.bool(0.3) ? '#00001f' : '' };
    } else {
      const dim = k !== 'tooltip';
      o = { name, kind: k, type: ty, cvia, marks: r.pick([['A'], ['B'], ['A', 'B'], ['g']]), title: r.pick([{ t: 'none' }, { t: 'text', v: 'Z' }, { t: 'fn', v: 'f' }].concat(dim ? [] : [{ t: 'row' }, { t: 'row' }])), content: r.pick([{ t: 'none' }, { t: 'rows' }, { t: 'rows' }, { t: 'fn', v: r.pick([['u'], ['u', 'w']]) }]), addx: r.bool(0.3) ? r.int(3, 20) : None, filter: kind === 'linear' ? 'v' : 'c', tol: r.int(5, 25), avoid: dim ? r.pick([[], [], ['A'], ['B', 'A']]) : [] };
      if (!dim && o.marks[0] === 'g' && (o.title.t === 'row' || o.title.t === 'fn' || o.content.t !== 'none')) o.marks = ['A'];
      o.title = Object.assign({ v: '', r: { vis: '', key: { t: 'none', v: '' }, value: { t: 'none', v: '' }, symbol: { t: 'none', v: '' } } }, o.title); if (o.title.t === 'row') o.title.r = row();
      o.content = { t: o.content.t, v: o.content.v || [], r: o.content.t === 'rows' ? Array.from({ length: r.int(1, 3) }, row) : [] };
    }
    o.trig = r.pick(['pointermove', 'pointermove', 'pointermove', 'click']); o.off = r.pick(['pointerleave', 'pointerleave', 'dblclick', 'none']);
    bound.push(o); beh.push({ op: 'bind', dt: 20, o });
  };
  bind(); if (r.bool(0.7)) bind();
  const n = r.int(5, L.quick ? 14 : 22);
  for (let i = 0; i < n; i++) {
    const p = r();
    if (p < 0.06 && nn < 4) bind();
    else if (p < 0.1 && bound.length) { const q = r.int(0, bound.length - 1), by = r.pick(['inst', 'id', 'all']); beh.push({ op: 'unbind', dt: 20, by, v: bound[q].name }); if (by === 'all') bound.length = 0; else bound.splice(q, 1); }
    else if (p < 0.13 && bound.length) beh.push({ op: 'rebind', dt: 20, v: r.pick(bound).name });
    else if (p < 0.2) { rows = mkRows(); beh.push({ op: 'rows', dt: 20, rows }); }
    else if (p < 0.24) beh.push({ op: 'scale', dt: 20, sc: mkSc(kind === 'point' ? r.int(2, 5) : r.int(1, 5)) });
    else if (p < 0.32) beh.push({ op: 'tick', dt: 20 });
    else {
      const ety = r.pick(['pointermove', 'pointermove', 'pointermove', 'pointermove', 'click', 'pointerleave', 'dblclick']), over = r.pick(['', '', 'A', 'A', 'B', 'g']);
      const e = { op: 'ev', dt: r.pick([20, 20, 20, 3, 6]), ty: ety, over, k: over === 'A' || over === 'B' ? r.pick(rows).k : '', x: 0, y: 0, deg: None, rad: None };
      if (polar && r.bool(0.85)) { e.deg = r.int(0, 359); e.rad = r.int(1, Math.min(w, h) / 2 - 5); } else { e.x = r.int(-20, w + 15); e.y = r.bool(0.8) ? r.int(0, h - 1) : r.int(-20, h + 15); }
      if (polar && e.deg === None) e.y = h + r.int(2, 9); // outside
      beh.push(e);
    }
  }
  beh.push({ op: 'tick', dt: 20 });
  exec(beh, L.rng(L.seed * 77 + t));
}
L.done();
