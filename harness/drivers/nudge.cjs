// Mark transforms: dodge, jitter, symmetry and overlap on marks whose data, scale, signals, transforms and states change (O01).
'use strict';
const L = require('../lib.cjs');
const { V } = L;
const None = -9999;
const nil = v => (v === None ? undefined : v);
const num = o => (o.pct ? o.v + '%' : o.v);
function spec(cfg, t) {
  const sig = { signal: 'sg' };
  const put = (o, k, v) => { if (v !== undefined) o[k] = v; };
  const o = {};
  if (t.t === 'dodge') {
    Object.assign(o, { type: 'dodge', innerGap: t.gs ? sig : num(t.gap), categoryGap: num(t.cat) });
    put(o, 'maxWidth', nil(t.max)); put(o, 'minWidth', nil(t.min)); if (t.by) o.dodgeBy = t.by; if (t.ch) o.dodgeChannel = t.ch;
  } else if (t.t === 'sym') { o.type = 'symmetry'; if (t.ch) o.channel = t.ch; if (t.al) o.align = t.al; }
  else if (t.t === 'over') {
    Object.assign(o, { type: 'markoverlap', direction: t.dir, sort: t.sort });
    if (t.ds) o.delta = sig; else if (t.delta !== None) o.delta = t.delta;
    o.deltaMul = t.mul / 2; if (t.rad) o.radius = t.rad === 'T'; if (t.by) o.groupBy = t.by;
  } else {
    o.type = { jit: 'jitter', jitx: 'jitterX', jity: 'jitterY' }[t.t];
    o.random = i => cfg.rv[i % cfg.rv.length] / 1000;
    if (t.t !== 'jity') { put(o, 'bandWidth', nil(t.bw)); put(o, 'widthRatio', t.rs ? { signal: 'sr' } : t.wr === None ? undefined : t.wr / 100); }
    if (t.t !== 'jitx') { put(o, 'bandHeight', nil(t.bh)); put(o, 'heightRatio', t.rs ? { signal: 'sr' } : t.hr === None ? undefined : t.hr / 100); }
  }
  return o;
}
const cat = 'ABCDEFGH';
const range = sc => { const z = [sc.base, sc.base + sc.n * sc.bw]; return sc.rev ? z.reverse() : z; };
const dom = sc => cat.slice(0, sc.n).split('');
const row = q => ({ k: q.k, c: cat[q.c], g: q.g, v: q.v, u: q.u, p: q.p, s: q.s, vis: q.vis, fs: q.fs });
const F = v => (typeof v === 'number' && isFinite(v) ? Math.round(v * 1000) : -1);
function drawn(m, cfg) {
  return m.elements.map(e => {
    const g = e.getGraphicItem(), a = g.attribute;
    let x, y;
    if (cfg.mt === 'rule') { x = [a.points[0].x, a.points[1].x]; y = [a.points[0].y, a.points[1].y]; }
    else if (cfg.mt === 'symbol') { x = [a.x, a.x]; y = [a.y, a.y]; }
    else { const end = (p, q, w) => (q !== undefined && q !== null ? q : w !== undefined && w !== null ? p + w : p); x = [a.x, end(a.x, a.x1, a.width)]; y = [a.y, end(a.y, a.y1, a.height)]; }
    const so = z => z.map(F).sort((p, q) => p - q);
    return { k: e.key, x: so(x), y: so(y), vis: a.visible !== false };
  });
}
function exec(beh) {
  const cfg = beh[0].cfg;
  L.emit({ op: 'reset', cfg });
  const view = L.mkView({ width: cfg.vw, height: cfg.vh, padding: 0 });
  try {
    view.signal(cfg.sig).id('sg'); view.signal(cfg.sig / 100).id('sr');
    let sc = null;
    if (cfg.band) sc = view.scale('band').domain(dom(cfg.sc)).range(range(cfg.sc)).id('sb');
    if (cfg.ol) view.scale('linear').domain([0, 100]).range([0, 100]).id('sl');
    const data = view.data(cfg.rows.map(row)).id('d');
    const m = view.mark(cfg.mt, view.rootMark).id('m').join('d', 'k', undefined, cfg.gb ? 'g' : undefined);
    const [a, o] = cfg.ch === 'x' ? ['x', 'y'] : ['y', 'x'], len = { x: 'width', y: 'height' };
    const other = f => (cfg.ol ? { scale: 'sl', field: f } : { field: f });
    const enc = { [a]: cfg.band ? { scale: 'sb', field: 'c' } : { field: 'p' }, [o]: other('v') };
    if (cfg.mt === 'rule') { enc[a + '1'] = Object.assign({}, enc[a]); }
    if (cfg.mt === 'rect' && cfg.wm === 'w') enc[len[a]] = cfg.band ? { scale: 'sb', band: 1 } : 8;
    if (cfg.mt === 'rect' && cfg.wm === 'x1') enc[a + '1'] = cfg.band ? { scale: 'sb', field: 'c', band: 1 } : q => q.p + 8;
    if (cfg.mt !== 'symbol' && cfg.om === 'u') enc[o + '1'] = other('u');
    if (cfg.mt === 'rect' && cfg.om === 'h') enc[len[o]] = { field: 'u' };
    if (cfg.mt === 'symbol') enc.size = { field: 's' };
    if (cfg.ve) enc.visible = { field: 'vis' };
    enc.forceShow = { field: 'fs' };
    m.encode(enc); m.encodeState('on', { [o]: cfg.sv });
    m.transform(cfg.tr.map(t => spec(cfg, t)));
    view.run();
    L.emit({ op: 'run', obs: drawn(m, cfg) });
    for (const b of beh.slice(1)) {
      const e = Object.assign({}, b);
      if (b.op === 'rows') { data.values(b.rows.map(row)); view.run(); }
      else if (b.op === 'sig') { view.getSignalById('sg').value(b.v); view.getSignalById('sr').value(b.v / 100); view.run(); }
      else if (b.op === 'sc') { if (!sc) continue; sc.domain(dom(b.sc)).range(range(b.sc)); view.run(); }
      else if (b.op === 'tr') { m.transform(b.tr.map(t => spec(cfg, t))); view.run(); }
      else if (b.op === 'state') { const el = m.elements.find(x => x.key === b.k); if (!el) continue; if (b.v) el.addState('on'); else el.removeState('on'); }
      else if (b.op === 'run') view.run();
      e.obs = drawn(m, cfg);
      L.emit(e);
    }
  } catch (err) { L.emit({ op: 'threw', msg: String(err && err.stack).slice(0, 300) }); }
  finally { L.dropView(view); }
}
for (const b of L.behaviours()) exec(b);
// ---- random behaviours
const no = { t: '', ch: '', by: '', gs: false, gap: { pct: false, v: 0 }, cat: { pct: true, v: 20 }, max: None, min: None, bw: None, bh: None, wr: None, hr: None, rs: false, al: '', dir: 0, delta: None, ds: false, mul: 2, rad: '', sort: false };
const N = L.quick ? 260 : 3000;
for (let t = 0; t < N; t++) {
  const r = L.rng(L.seed * 100003 + t);
  const mt = r.pick(['rect', 'rect', 'symbol', 'symbol', 'rule']), band = r.bool(0.75), ch = r.pick(['x', 'y']), st = r.bool(0.3), om = mt === 'rect' ? r.pick(['u', 'h']) : 'u';
  const keys = 'abcdefghij'.split('');
  const rows = n => { const ks = keys.slice().sort(() => r() - 0.5).slice(0, n); return ks.map(k => ({ k, c: r.int(0, 2), g: r.pick(['p', 'q', 'r', 's']), v: r.int(0, 60), u: r.int(0, 60), p: r.int(0, 120), s: 2 * r.int(1, 8), vis: r.bool(0.85), fs: r.bool(0.12) })); };
  const sc = () => ({ n: r.int(3, 5), bw: r.int(18, 60), base: r.int(0, 20), rev: r.bool(0.3) });
  const ve = !st && r.bool(0.6), always = mt === 'symbol' && !ve && !st && r.bool(0.6), wm = mt === 'rect' ? r.pick(['w', 'x1', '']) : '';
  const fams = ['dodge', 'dodge'].concat(mt === 'rule' ? [] : ['sym'], mt === 'symbol' ? ['jit', 'jitx', 'jity'].concat(ve ? ['over', 'over', 'over'] : []) : []);
  const one = f => {
    const q = JSON.parse(JSON.stringify(no)); q.t = f;
    if (f === 'dodge') { q.by = r.pick(['g', 'g', '']); q.gs = r.bool(0.4); q.gap = r.pick([{ pct: false, v: r.int(0, 3) }, { pct: true, v: r.int(0, 10) }]); q.cat = r.pick([{ pct: false, v: r.int(0, 8) }, { pct: true, v: r.int(0, 40) }, { pct: false, v: 70 }]); if (r.bool(0.3)) q.max = r.int(2, 15); if (r.bool(0.3)) q.min = r.int(2, 12); if (r.bool(0.5)) q.ch = ch; else if (r.bool(0.2) && mt === 'rect' && om === 'h') q.ch = ch === 'x' ? 'y' : 'x'; }
    else if (f === 'sym') { q.ch = r.pick(['', 'x', 'y']); q.al = r.pick(['', 'min', 'max']); if (mt === 'rect' && q.ch === ch) q.ch = ch === 'x' ? 'y' : 'x'; if (mt === 'rect' && !q.ch && ch === 'y') q.ch = 'x'; }
    else if (f === 'over') { q.dir = r.int(0, 2); if (r.bool()) q.delta = r.int(0, 15); q.ds = r.bool(0.4); q.mul = r.int(0, 4); q.rad = r.pick(['', '', 'T', 'F']); q.by = r.pick(['', '', 'g']); q.sort = q.dir !== 2 && r.bool(0.4); }
    else { if (r.bool(0.4)) q.bw = r.int(2, 40); if (r.bool(0.4)) q.bh = r.int(2, 40); if (r.bool()) q.wr = r.int(0, 60); if (r.bool()) q.hr = r.int(0, 60); q.rs = r.bool(0.25); }
    return q;
  };
  const trs = () => { const z = trs0(); if (always) return [Object.assign(one('sym'), { ch: r.pick(['x', 'y']) }), one('over')].slice(r.int(0, 1)); if (wm === '' && mt === 'rect' && z[0] && z[0].t === 'dodge') z[0].ch = ''; if (mt === 'rect' && wm === '' && !(z[0] && z[0].t === 'dodge')) return [Object.assign(one('dodge'), { ch: '' })]; return z; };
  const trs0 = () => { const p = r(); if (p < 0.1) return []; const f = one(r.pick(fams)); if (p > 0.6) { if (f.t === 'dodge' && mt !== 'rule' && !f.ch) { const s = one('sym'); s.ch = ch === 'x' ? 'y' : 'x'; return [f, s]; } if (f.t === 'over') return r.bool() || !band ? [f] : [Object.assign(one('sym'), { ch: ch === 'x' ? 'y' : 'x' }), f]; if (f.t.startsWith('jit')) return [f, one('dodge')]; } return [f]; };
  const cfg = { mt, ch, band, wm, om, ol: r.bool(0.4), gb: r.bool(0.4), ve, st, sv: 7, rv: Array.from({ length: r.int(1, 4) }, () => r.int(0, 1000)), vw: r.int(10, 30) * 10, vh: r.int(10, 30) * 10, sig: r.int(0, 4), tr: trs(), sc: sc(), rows: rows(r.int(0, 7)) };
  const beh = [{ op: 'reset', cfg }];
  let cur = cfg.rows;
  const n = r.int(4, L.quick ? 8 : 14);
  for (let i = 0; i < n; i++) {
    const p = r();
    if (p < 0.3) { cur = r.bool(0.5) ? cur.map(q => (r.bool(0.6) ? q : Object.assign({}, q, { v: r.int(0, 60), vis: r.bool(0.8) }))) : rows(r.int(0, 8)); beh.push({ op: 'rows', rows: cur }); }
    else if (p < 0.45) beh.push({ op: 'sig', v: r.int(0, 4) });
    else if (p < 0.6 && band) beh.push({ op: 'sc', sc: sc() });
    else if (p < 0.8) beh.push({ op: 'tr', tr: trs() });
    else if (p < 0.85) beh.push({ op: 'run' });
    else if (st && cur.length) beh.push({ op: 'state', k: r.pick(cur).k, v: r.bool(0.6) });
  }
  exec(beh);
}
L.done();
