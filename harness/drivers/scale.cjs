// Scales of real views: domains and ranges from data, signals and coordinates under histories of changes.
const L = require('../lib.cjs');
const N = L.NAI;
const num = x => (x instanceof Date ? +x : x);
function exec(cfg, cmds, rnd, tag) {
  L.mark({ cfg, cmds });
  const cfg0 = cfg;
  let names = ['band', 'point', 'ordinal'].includes(cfg.type);   // category codes are strings in the data
  const out = x => (typeof x === 'string' ? +x.slice(1) : num(x));
  const enc = (f, x) => (f === 'k' ? 'k' + x : x === N ? rnd.pick([null, undefined, NaN]) : x);
  const row = r => { const o = {}; for (const f in r) o[f] = enc(f, r[f]); return o; };
  const view = L.mkView({ width: 50, height: 50 });
  const s = view.signal(cfg.sig).id('s'), w = view.signal(cfg.w).id('w'), h = view.signal(cfg.h).id('h');
  const A = view.data(cfg.a.map(row)).id('A'), Bd = view.data(cfg.b.map(row)).id('B');
  view.coordinate('cartesian').id('c').start([0, 0]).end({ callback: (c, p) => [p.w, p.h], dependency: ['w', 'h'] });
  const ref = d => (rnd.bool() ? d : view.getDataById(d));
  let kdom = false;
  const cmpf = how => (how ? { sort: (a, b) => (out(a) - out(b)) * (how === 'asc' ? 1 : -1) } : {});
  const dataSpec = (d, sorted) => {
    const ds = d.ds.map(x => ({ data: ref(x.d), field: x.fs.length === 1 && rnd.bool() ? x.fs[0] : x.fs.slice() }));
    return Object.assign(d.k === 'data' ? ds[0] : { datas: ds }, sorted ? cmpf(d.sort) : {});
  };
  const cat = x => (kdom ? 'k' + x : x);
  const dom = d => {
    kdom = d.k === 'arr' || d.k === 'sig' ? names : d.ds.some(x => x.fs.includes('k'));
    return d.k === 'arr' ? (rnd.bool() ? d.v.map(cat) : () => d.v.map(cat))
      : d.k === 'sig' ? { callback: (sc, p) => [...d.v, p.s].map(cat), dependency: rnd.bool() ? 's' : [view.getSignalById('s')] } : dataSpec(d, true);
  };
  const rng = r => (r.k === 'arr' ? (rnd.bool() ? r.v.slice() : () => r.v.slice()) : r.k === 'sig' ? { callback: (sc, p) => [...r.v, p.s], dependency: ['s'] }
    : r.k === 'coord' ? Object.assign({ coordinate: rnd.bool() ? 'c' : view.getCoordinateById('c'), dimension: r.dim === 'x' ? rnd.pick(['x', '0']) : rnd.pick(['y', '1']) }, r.rev ? { reversed: true } : {}) : dataSpec(r, false));
  const pct = ['padding', 'paddingInner', 'paddingOuter', 'align'], bool = ['zero', 'round', 'roundRange', 'clamp'];
  const conf = opt => {
    const o = {};
    for (const k in opt) {
      const f = x => (pct.includes(k) ? x / 100 : bool.includes(k) ? x > 0 : x), p = opt[k];
      if (k === 'clamp') o.config = { clamp: f(p.c) };
      else o[k] = 's' in p ? (!pct.includes(k) && !bool.includes(k) && rnd.bool() ? { signal: 's' } : { callback: (sc, ps) => f(ps.s), dependency: ['s'] }) : rnd.bool(0.8) ? f(p.c) : () => f(p.c);
    }
    return o;
  };
  L.emit(Object.assign({ op: 'reset', cfg: cfg0 }, tag ? { tag } : {}));
  let sc;
  if (rnd.bool()) { sc = view.scale(cfg.type).id('x'); sc.domain(dom(cfg.dom)); sc.range(rng(cfg.rng)); if (Object.keys(cfg.opt).length) sc.configure(conf(cfg.opt)); }
  else { view.parseSpec({ scales: [Object.assign({ id: 'x', type: cfg.type, domain: dom(cfg.dom), range: rng(cfg.rng) }, conf(cfg.opt))] }); sc = view.getScaleById('x'); }
  for (const c of cmds) {
    const line = Object.assign({}, c);
    let threw;
    try {
      if (c.op === 'spec') {
        cfg = c.cfg;
        names = ['band', 'point', 'ordinal'].includes(cfg.type);
        view.updateSpec({ signals: [{ id: 's', value: cfg.sig }, { id: 'w', value: cfg.w }, { id: 'h', value: cfg.h }], data: [{ id: 'A', values: cfg.a.map(row) }, { id: 'B', values: cfg.b.map(row) }],
          coordinates: [{ id: 'c', type: 'cartesian', start: [0, 0], end: { callback: (o, q) => [q.w, q.h], dependency: ['w', 'h'] } }] });
        view.parseSpec({ scales: [Object.assign({ id: 'x', type: cfg.type, domain: dom(cfg.dom), range: rng(cfg.rng) }, conf(cfg.opt))] });
        sc = view.getScaleById('x');
      } else if (c.op === 'a') view.getDataById('A').values(c.rows.map(row)); else if (c.op === 'b') view.getDataById('B').values(c.rows.map(row));
      else if (c.op === 'sig') view.updateSignal('s', c.v);
      else if (c.op === 'size') { view.updateSignal('w', c.w); view.updateSignal('h', c.h); }
      else if (c.op === 'dom') sc.domain(dom(c.dom)); else if (c.op === 'rng') sc.range(rng(c.rng));
      else if (c.op === 'conf') sc.configure(conf(c.opt));
      else if (c.op === 'rf') { sc.setRangeFactor(c.rf.length ? c.rf.map(x => x / 4) : undefined); sc.commit(); }
      else if (c.op === 'run') {
        view.run();
        const o = sc.output();
        const d = o.domain(), g = o.range ? o.range() : [];
        const ys = c.xs.map(x => o.scale(kdom ? 'k' + x : x));
        line.obs = { dom: d.map(x => L.I(out(x))), rng: g.map(x => L.I(out(x))), ys: ys.map(y => L.FX(out(y))), step: o.step ? L.FX(o.step()) : 0, bw: o.bandwidth ? L.FX(o.bandwidth()) : 0 };
      }
    } catch (e) { threw = String(e && e.stack).slice(0, 300); }
    if (threw) line.obs = { threw };
    L.emit(line);
  }
  L.dropView(view);
}
const r0 = L.rng(L.seed + 500);
for (const b of L.behaviours()) exec(b[0].cfg, b.slice(1), r0);
const r = L.rng(L.seed + 31);
const M = L.quick ? 700 : 8000;
function epoch(like, most) {
  const type = like && r.bool(0.7) ? like : r.pick(['linear', 'linear', 'band', 'band', 'point', 'ordinal', 'quantize', 'quantile', 'threshold', 'pow', 'sqrt', 'log', 'symlog', 'time', 'utc']);
  const cont = ['linear', 'pow', 'sqrt', 'log', 'symlog', 'time', 'utc'].includes(type), band = type === 'band' || type === 'point';
  const pos = type === 'log' || type === 'pow' || type === 'sqrt';
  const disc = band || type === 'ordinal';
  const val = () => (pos ? r.int(1, 40) : r.int(-20, 40));
  const rows = () => Array.from({ length: r.pick([1, 2, 3, 5, 9]) }, () => ({ k: r.int(1, 8), v: val(), n: r.bool(0.3) && !disc ? N : val() }));
  const fld = () => (disc ? (r.bool(0.8) ? 'k' : 'v') : r.pick(['v', 'n']));
  const even = () => 8 * r.int(-5, 50);
  const dom = () => {
    const p = r();
    if (type === 'threshold') { const v = Array.from({ length: r.int(1, 4) }, val).sort((a, b) => a - b); return { k: 'arr', v }; }
    if (type === 'identity' || (p < 0.2 && !disc)) { const v = [val(), val()]; return { k: 'arr', v: cont || type === 'quantize' ? v.sort((a, b) => a - b) : v }; }
    if (p < 0.2) return { k: 'arr', v: Array.from({ length: r.int(1, 6) }, () => r.int(1, 8)) };
    if (p < 0.3) return { k: 'sig', v: disc ? [r.int(1, 8)] : [pos ? 1 : -20] };
    const f = fld();
    const fs = () => (r.bool(0.2) && !(disc && f === 'k') ? ['v', 'n'] : [f]);
    return r.bool(0.7) ? { k: 'data', ds: [{ d: r.pick(['A', 'A', 'B']), fs: fs() }], sort: r.pick(['', '', 'asc', 'desc']) } : { k: 'multi', ds: [{ d: 'A', fs: fs() }, { d: 'B', fs: fs() }], sort: r.pick(['', 'asc', 'desc']) };
  };
  const qn = r.pick([2, 4]);
  const rng = () => {
    const p = r();
    if (cont || band) {
      if (p < 0.4) return { k: 'coord', dim: r.pick(['x', 'y']), rev: r.bool(0.3) };
      if (p < 0.5 && !band) return { k: 'data', ds: [{ d: 'B', fs: ['v'] }], sort: '' };
      return { k: 'arr', v: [even(), even()] };
    }
    if (type === 'quantile') return { k: 'arr', v: Array.from({ length: qn }, () => r.int(0, 99)) };
    if (type === 'ordinal' && p < 0.2) return { k: 'data', ds: [{ d: 'B', fs: ['v'] }], sort: '' };
    if (type === 'ordinal' && p < 0.3) return { k: 'sig', v: [3, 4] };
    return { k: 'arr', v: Array.from({ length: r.int(type === 'threshold' || type === 'quantize' ? 2 : 1, 5) }, () => r.int(0, 99)) };
  };
  const P = (lo, hi, m = 1) => (r.bool(0.25) ? { s: 1 } : { c: m * r.int(lo, hi) });
  const piece = type === 'linear' && r.bool(0.15);
  const which = r.bool() ? 'zero' : 'minmax';   // both at once are ambiguous
  const conf = () => {
    const o = {};
    if (band) { const k = type === 'point' ? ['padding', 'align', 'round'] : ['padding', 'paddingInner', 'paddingOuter', 'align', 'round'];
      for (const f of k) if (r.bool(0.3)) o[f] = f === 'round' ? P(0, 1) : P(0, 10, 10); }
    else if ((cont || type === 'quantize') && !piece) {
      if (!pos || type === 'sqrt') { if (which === 'zero') { if (r.bool(0.5)) o.zero = P(0, 1); } else { if (r.bool(0.4)) o.min = P(pos ? 0 : -30, 10); if (r.bool(0.4)) o.max = P(10, 60); } }
      else if (which !== 'zero') { if (r.bool(0.4)) o.max = P(10, 60); }
      if (cont && r.bool(0.3)) o.clamp = { c: r.int(0, 1) };
      if (cont && r.bool(0.15)) o.roundRange = { c: 1 };
      if (type === 'pow') o.exponent = { c: 2 };
      if (type === 'log' && r.bool(0.3)) o.base = { c: 2 };
    }
    if (band || type === 'ordinal') { if (r.bool(0.3)) o.unknown = P(0, 9); }
    return o;
  };
  const opt0 = conf();
  if (type === 'pow') opt0.exponent = { c: 2 };
  if (type === 'ordinal') opt0.unknown = P(0, 9);
  const cfg = { type, dom: dom(), rng: rng(), opt: opt0, a: rows(), b: rows(), sig: r.int(40, 60), w: 8 * r.int(5, 60), h: 8 * r.int(5, 60) };
  if (piece) { const d = () => ({ k: 'arr', v: [r.int(-20, -1), r.int(0, 9), r.int(10, 30)] }); cfg.dom = d(); cfg.rng = { k: 'arr', v: [even(), even(), even()] }; }
  const run = () => ({ op: 'run', xs: Array.from({ length: 6 }, () => (disc ? r.int(1, 9) : type === 'pow' || type === 'log' || type === 'sqrt' ? r.int(1, 50) : r.int(-30, 60))) });
  const cmds = [run()];
  for (let i = r.int(like ? 0 : 1, most); i > 0; i--) {
    for (let j = r.int(1, 3); j > 0; j--) {
      const p = r();
      if (p < 0.2) cmds.push({ op: 'a', rows: rows() }); else if (p < 0.3) cmds.push({ op: 'b', rows: rows() });
      else if (p < 0.45) cmds.push({ op: 'sig', v: r.int(40, 60) }); else if (p < 0.55) cmds.push({ op: 'size', w: 8 * r.int(5, 60), h: 8 * r.int(5, 60) });
      else if (p < 0.65 && !piece) cmds.push({ op: 'dom', dom: dom() });
      else if (p < 0.75 && !piece) { const q = rng(); cmds.push({ op: 'rng', rng: q }); }
      else if (p < 0.92) { const o = conf(); if (type === 'ordinal') delete o.unknown; if (Object.keys(o).length) cmds.push({ op: 'conf', opt: o }); }
      else if (!piece && r.bool(0.6)) cmds.push({ op: 'rf', rf: r.pick([[], [0, 2], [1, 3], [2, 4], [1, 2], [0, 4]]) });
    }
    cmds.push(run());
  }
  return { cfg, cmds };
}
for (let n = 0; n < M; n++) {
  const b = epoch('', 5), cmds = b.cmds;
  let last = b.cfg;
  while (r.bool(0.25)) { const e = epoch(last.type, 2); last = e.cfg; cmds.push({ op: 'spec', cfg: e.cfg }, ...e.cmds); }
  exec(b.cfg, cmds, r);
}
L.done();
