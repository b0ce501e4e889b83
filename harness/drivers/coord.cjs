// Coordinates: the classes themselves and views whose marks are placed by one.
const L = require('../lib.cjs');
const V = L.V, Q = Math.PI / 2;
const pair = p => [L.FX(p.x), L.FX(p.y)];
function api(cfg, cmds, rnd) {
  const c = cfg.type === 'polar' ? new V.vcoord.PolarCoordinate() : new V.vcoord.CartesianCoordinate();
  const polar = cfg.type === 'polar';
  const set = (f, p) => (rnd.bool() ? c[f](p.slice()) : f !== 'angle' && f !== 'radius' && rnd.bool() ? c[f]({ x: p[0], y: p[1] }) : c[f](p[0], p[1]));
  const tr = t => (t.t === 'translate' ? { type: 'translate', offset: { x: t.p[0], y: t.p[1] } } : t.t === 'scale' ? { type: 'scale', scale: { x: t.p[0], y: t.p[1] } }
    : t.t === 'rotate' ? { type: 'rotate', angle: 'm' in t ? t.m / 1000 : t.k * Q } : { type: 'transpose' });
  // value of the first and second dimension: angles come in quarter turns
  const uv = (u, v) => { const t = c.isTransposed(); return polar ? [t ? u : u * Q, t ? v * Q : v] : [u, v]; };
  const point = (form, us, vs) => {
    const [u, v] = uv(us[0], vs[0]), [u1, v1] = uv(us[us.length - 1], vs[vs.length - 1]);
    if (form === 'arr') return polar ? [v, u] : [u, v];
    const o = form === 'rt' && polar ? { r: v, theta: u } : { x: u, y: v };
    if (us.length > 1) o[form === 'rt' && polar ? 'theta1' : 'x1'] = u1;
    if (vs.length > 1) o[form === 'rt' && polar ? 'r1' : 'y1'] = v1;
    return o;
  };
  c.applyTransforms([]);
  for (const e of cmds) {
    const line = Object.assign({}, e);
    try {
      if (e.op === 'start' || e.op === 'end' || e.op === 'origin') set(e.op, e.p);
      else if (e.op === 'angle') set('angle', e.p.map(x => x * Q));
      else if (e.op === 'radius') set('radius', e.p);
      else if (e.op === 'apply') c.applyTransforms(e.ts.map(tr));
      else if (e.op === 'conv') { const p = c.convert(point(e.form, e.u, e.v)); line.obs = { p: pair(p), p1: [L.FX(p.x1), L.FX(p.y1)] }; }
      else if (e.op === 'back') {
        const q = c.invert(c.convert(point(rnd.bool() ? 'xy' : 'rt', [e.u], [e.v])));
        line.obs = { p: polar ? [L.FX(q.theta), L.FX(q.r)] : pair(q) };
      } else if (e.op === 'round') {
        const t = c.isTransposed();
        const u = e.u / 1000, v = e.v / 1000, u1 = e.u1 / 1000, v1 = e.v1 / 1000;
        if (polar) {
          const q = c.invert(c.convert({ theta: u, r: v, theta1: u1, r1: v1 }));
          line.obs = { a: [u, v, u1, v1].map(x => L.FX(x)), b: [q.theta, q.r, q.theta1, q.r1].map(x => L.FX(x)), ang: [!t, t, !t, t] };
        } else {
          const q = rnd.bool() ? c.invert(c.convert({ x: u, y: v, x1: u1, y1: v1 })) : c.convert(c.invert({ x: u, y: v, x1: u1, y1: v1 }));
          line.obs = { a: [u, v, u1, v1].map(x => L.FX(x)), b: [q.x, q.y, q.x1, q.y1].map(x => L.FX(x)), ang: [false, false, false, false] };
        }
      } else if (e.op === 'range') line.obs = { p: c.getRangeByDimension(e.dim, e.sub, e.rev).map(x => L.FX(x)) };
      else if (e.op === 'vis') line.obs = { v: c.getVisualPositionByDimension(e.dim, e.sub, e.rev) };
      else if (e.op === 'axis') {
        const b = e.base.length ? (polar ? e.base[0] * Q : e.base[0]) : undefined;
        const p = c.getAxisPointsByDimension(e.dim, e.sub, e.rev, b);
        line.obs = { p: p ? p.map(pair) : [[], []] };
      } else if (e.op === 'tr') line.obs = { v: !!c.isTransposed() };
    } catch (x) { line.obs = { threw: String(x && x.stack).slice(0, 300) }; }
    L.emit(line);
  }
}
function inView(cfg, cmds, rnd) {
  let type = cfg.type, enc = cfg.enc, rows = cfg.rows, conf = Object.assign({}, cfg.conf);
  const val = (f, x) => {
    const g = v => (f === 'rotate' ? v * Q : f === 'transpose' ? !!v : v.slice());
    if (!x.s) return rnd.bool(0.8) ? g(x.v) : () => g(x.v);
    if (rnd.bool(0.3) && f === 'rotate') return { signal: 'q' };
    return { callback: (c, p) => g(f === 'rotate' ? p.s : f === 'transpose' ? p.s % 2 === 1 : [p.s, x.v[1]]), dependency: ['s'] };
  };
  const coordSpec = () => { const o = { id: 'c', type }; for (const f in conf) o[f] = val(f, conf[f]); return o; };
  const k = () => (type === 'polar' ? Q : 1);
  const markSpec = (id, t, extra) => {
    const kk = k();
    const pos = Object.assign({ x: d => d.x * kk, y: d => d.y }, extra ? { x1: d => d.x1 * kk } : {});
    return { id, type: t, from: { data: 'D' }, key: 'k', coordinate: 'c', encode: enc === 'enter' ? { enter: pos, update: { opacity: d => d.y / 100 } } : { update: pos } };
  };
  const arcSpec = () => ({ id: 'a', type: 'arc', from: { data: 'D' }, key: 'k', coordinate: 'c', encode: { [enc]: { x: d => d.x, y: d => d.y } } });
  const spec = () => ({ signals: [{ id: 's', value: sig }, { id: 'q', update: { callback: (o, p) => p.s * Q, dependency: ['s'] } }], data: [{ id: 'D', values: rows.map(r => Object.assign({}, r)) }],
    coordinates: [coordSpec()], marks: [markSpec('m', 'symbol'), markSpec('l', 'rule', true), arcSpec()] });
  let sig = cfg.sig;
  const view = L.mkView({ width: 60, height: 60 });
  view.parseSpec(spec());
  for (const e of cmds) {
    const line = Object.assign({}, e);
    try {
      const c = view.getCoordinateById('c');
      if (e.op === 'conf') { Object.assign(conf, e.conf); for (const f in e.conf) c[f](val(f, e.conf[f])); }
      else if (e.op === 'drop') { delete conf[e.f]; c[e.f](null); }
      else if (e.op === 'sig') { sig = e.v; view.updateSignal('s', e.v); }
      else if (e.op === 'rows') { rows = e.rows; view.getDataById('D').values(rows.map(r => Object.assign({}, r))); }
      else if (e.op === 'spec') { type = e.type; enc = e.enc; conf = Object.assign({}, e.conf); view.updateSpec(spec()); }
      else if (e.op === 'run') {
        view.run();
        const of = (id, r) => { const el = view.getMarkById(id).elements.find(x => x.getDatum().k === r.k); return el.getGraphicItem().attribute; };
        const n = ['m', 'l', 'a'].map(id => view.getMarkById(id).elements.length);
        line.obs = { ps: n.some(x => x !== rows.length) ? [] : rows.map(r => {
          const s = of('m', r), l = of('l', r).points, a = of('a', r);
          return { s: pair(s), r: pair(l[0]), r1: pair(l[1]), a: pair(a) };
        }) };
      }
    } catch (x) { line.obs = { threw: String(x && x.stack).slice(0, 300) }; }
    L.emit(line);
    if (line.obs && line.obs.threw) break;
  }
  L.dropView(view);
}
function exec(cfg, cmds, rnd) {
  L.mark({ cfg, cmds });
  L.emit({ op: 'reset', cfg });
  (cfg.kind === 'api' ? api : inView)(cfg, cmds, rnd);
}
const r0 = L.rng(L.seed + 900);
for (const b of L.behaviours()) exec(b[0].cfg, b.slice(1), r0);
const r = L.rng(L.seed + 77);
const M = L.quick ? 1200 : 15000;
const even = (a, b) => 2 * r.int(a / 2, b / 2);
const transform = (polar, irr) => r.pick([
  () => ({ t: 'translate', p: [r.int(-30, 30), r.int(-30, 30)] }), () => (irr && r.bool() ? { t: 'rotate', m: r.int(-7000, 7000) } : { t: 'rotate', k: r.int(-4, 5) }),
  () => ({ t: 'scale', p: [r.pick([1, 2, 3, -1, -2]), r.pick([1, 2, 3, -1])] }), () => ({ t: 'transpose' })])();
for (let i = 0; i < M; i++) {
  const type = r.pick(['cartesian', 'polar']), polar = type === 'polar';
  if (i % 3) {
    const cmds = [], irr = r.bool(0.3);
    let ts = [], tr = false;
    if (polar) { if (r.bool()) cmds.push({ op: 'end', p: [even(20, 200), even(20, 200)] }); }
    const sets = r.int(1, 5);
    for (let j = 0; j < sets; j++) {
      const kind = r.pick(polar ? ['end', 'origin', 'origin', 'angle', 'radius', 'apply', 'apply'] : ['start', 'end', 'apply', 'apply']);
      if (kind === 'apply') { ts = []; for (let q = r.int(0, 4); q > 0; q--) ts.push(transform(polar, irr)); tr = ts.filter(t => t.t === 'transpose').length % 2 === 1; cmds.push({ op: 'apply', ts }); }
      else if (kind === 'angle') cmds.push({ op: 'angle', p: [r.int(-4, 4), r.int(-4, 8)] });
      else if (kind === 'radius') cmds.push({ op: 'radius', p: [r.int(0, 100), r.int(0, 100)] });
      else cmds.push({ op: kind, p: kind === 'start' || kind === 'end' ? [even(kind === 'end' ? 20 : -10, 200), even(kind === 'end' ? 20 : -10, 200)] : [even(-50, 100), even(-50, 100)] });
      const dim = () => r.pick(['x', 'y', 'theta', 'r', '0', '1']);
      for (let q = r.int(1, 5); q > 0; q--) {
        const ang = () => r.int(-4, 8), len = () => r.int(polar ? 0 : -60, 60);
        const first = () => (polar && !tr ? ang() : len()), second = () => (polar && tr ? ang() : len());
        const form = r.pick(['xy', 'arr', 'rt']);
        const two = form !== 'arr' && r.bool(0.4);
        cmds.push(r.pick([
          () => ({ op: 'conv', form, u: two && r.bool(0.7) ? [first(), first()] : [first()], v: two && r.bool(0.7) ? [second(), second()] : [second()] }),
          () => ({ op: 'back', u: first(), v: second() }),
          () => (polar ? tr ? { op: 'round', u: r.int(100, 90000), v: r.int(0, 6280), u1: r.int(100, 90000), v1: r.int(0, 6280) } : { op: 'round', u: r.int(0, 6280), v: r.int(100, 90000), u1: r.int(0, 6280), v1: r.int(100, 90000) }
            : { op: 'round', u: r.int(-90000, 90000), v: r.int(-90000, 90000), u1: r.int(-90000, 90000), v1: r.int(-90000, 90000) }),
          () => ({ op: 'range', dim: dim(), sub: r.bool(), rev: r.bool() }), () => ({ op: 'vis', dim: dim(), sub: r.bool(), rev: r.bool() }),
          () => ({ op: 'axis', dim: dim(), sub: r.bool(), rev: r.bool(), base: r.bool() ? [] : [r.int(-3, 6)] }), () => ({ op: 'tr' })])());
      }
    }
    exec({ kind: 'api', type }, cmds, r);
  } else {
    const c = (f, v) => ({ v, s: r.bool(0.35) && f !== 'start' });
    const one = (f, t) => ({ start: () => c(f, [0, 0]), end: () => c(f, [even(40, 200), even(40, 200)]), origin: () => c(f, [even(0, 60), even(0, 60)]), translate: () => c(f, [r.int(-20, 20), r.int(-20, 20)]), rotate: () => c(f, r.int(-3, 5)),
      scale: () => c(f, [r.pick([1, 2, -1, 3]), r.pick([1, 2, -1])]), transpose: () => c(f, r.bool()) })[f]();
    const keys = t => (t === 'polar' ? ['origin', 'end', 'translate', 'rotate', 'scale'] : ['start', 'end', 'translate', 'rotate', 'scale', 'transpose']);
    const some = t => { const o = t === 'polar' ? { start: c('start', [0, 0]), end: one('end') } : {}; for (const f of keys(t)) if (r.bool(0.4)) o[f] = one(f); return o; };
    const row = k => ({ k, x: r.int(-4, 6), y: r.int(0, 40), x1: r.int(-4, 6) });
    const rowsOf = () => { const ks = []; for (let k = 1; k <= 5; k++) if (r.bool(0.6)) ks.push(k); for (let a = ks.length - 1; a > 0; a--) { const b = r.int(0, a); [ks[a], ks[b]] = [ks[b], ks[a]]; } return ks.length ? ks.map(row) : [row(1)]; };
    let t = type, conf = some(t);
    const evens = () => 2 * r.int(1, 4) + (r.bool() ? 1 : 0);
    const cfg = { kind: 'view', type: t, conf: Object.assign({}, conf), rows: rowsOf(), sig: evens(), enc: r.pick(['enter', 'update']) };
    const cmds = [{ op: 'run' }];
    for (let q = r.int(1, 7); q > 0; q--) {
      const tk = Object.keys(conf).filter(f => ['translate', 'rotate', 'scale', 'transpose'].includes(f));
      const e = r.pick([
        () => { const f = r.pick(keys(t)); const o = { [f]: one(f) }; Object.assign(conf, o); return { op: 'conf', conf: o }; }, () => { const f = r.pick(keys(t)); const o = { [f]: one(f) }; Object.assign(conf, o); return { op: 'conf', conf: o }; },
        () => ({ op: 'sig', v: evens() }), () => ({ op: 'rows', rows: rowsOf() }), () => ({ op: 'run' }), () => ({ op: 'run' }),
        () => { if (!tk.length) return { op: 'run' }; const f = r.pick(tk); delete conf[f]; return { op: 'drop', f }; },
        () => { t = r.pick(['cartesian', 'polar']); conf = some(t); return { op: 'spec', type: t, conf: Object.assign({}, conf), enc: r.pick(['enter', 'update']) }; }])();
      cmds.push(e);
      if (e.op === 'spec' ) cmds.push({ op: 'run' });
    }
    cmds.push({ op: 'run' });
    exec(cfg, cmds, r);
  }
}
L.done();
