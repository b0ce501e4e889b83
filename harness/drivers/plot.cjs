// Plots: semantic marks on shared scales, run after run.
const L = require('../lib.cjs');
const V = L.V;
const { Plot } = V.vplot;
const CAT = { 1: 'a', 2: 'b', 3: 'c', 4: 'd', 11: 'p', 12: 'q', 13: 'r', 14: 's' };
const UNCAT = Object.fromEntries(Object.entries(CAT).map(([c, n]) => [n, +c]));
const USER = { 101: '#aa0000', 102: '#00aa00', 103: '#0000aa', 201: '#123456', 202: '#654321', 203: '#fedcba' };
const palette = V.ThemeManager.getDefaultTheme().palette.default;
const code = c => { if (c === undefined || c === null || c === false) return 0; const i = palette.indexOf(c); if (i >= 0) return i + 1; const u = Object.keys(USER).find(k => USER[k] === c); return u ? +u : -1; };
const row = r => ({ i: r.i, k: CAT[r.k], g: CAT[r.g], v: r.v, w: r.w, u: r.u });
const NAI = L.NAI;
const num = v => (v === undefined || v === null || Number.isNaN(v) ? NAI : Math.abs(v) > 1e6 ? 99999998 : Math.round(v * 1000));
const LINE = { line: 1, area: 1 }, RULE = { rule: 1, ruleX: 1, ruleY: 1 };
function exec(cfg, cmds, rnd, tag) {
  L.mark({ cfg, cmds });
  L.emit(tag ? { op: 'reset', cfg, tag } : { op: 'reset', cfg });
  const plot = new Plot({ width: cfg.w, height: cfg.h, padding: 0, container: null, hover: false, select: false });
  const view = plot.view;
  const marks = [], defs = [];
  let box = [cfg.w, cfg.h];
  const ownId = i => 'm' + i;
  const field = fs => (fs.length > 1 ? fs.slice() : fs[0]);
  const styleOf = sty => {
    const o = {};
    if (sty.fill) o.fill = USER[sty.fill];
    if (sty.stroke) o.stroke = USER[sty.stroke];
    if (sty.max !== NAI) o.maxWidth = sty.max;
    if (sty.min !== NAI) o.minWidth = sty.min;
    const gap = g => (g[0] === 'px' ? g[1] : g[1] + '%');
    if (!(sty.ig[0] === 'px' && sty.ig[1] === 0)) o.innerGap = gap(sty.ig);
    if (!(sty.cat[0] === 'pct' && sty.cat[1] === 20) || rnd.bool()) o.categoryGap = gap(sty.cat);
    return o;
  };
  const optOf = o => {
    const r = {};
    if (o.id) r.id = o.id;
    if (o.type) r.type = o.type;
    if (o.zero !== undefined) r.zero = true;
    if (o.min !== undefined) r.min = o.min;
    if (o.max !== undefined) r.max = o.max;
    if (o.padding !== undefined) r.padding = o.padding / 100;
    if (o.dom) r.domain = o.dom.map(x => CAT[x] && o.cat ? CAT[x] : x);
    if (o.rng) r.range = o.rng.map(x => (x > 100 && USER[x] && o.col ? USER[x] : x));
    return r;
  };
  const rowsOf = rows => rows.map(row);
  const define = (mk, m, i) => {
    mk.data(rowsOf(m.rows), undefined, m.did || undefined);
    rnd.shuffle(Object.keys(m.enc)).sort((a, b) => (a === 'y') - (b === 'y')).forEach(ch => mk.encode(ch, field(m.enc[ch])));
    Object.keys(m.sc).forEach(ch => mk.scale(ch, optOf(m.sc[ch])));
    const sty = styleOf(m.sty);
    if (Object.keys(sty).length) mk.style(sty);
    return mk;
  };
  const observe = () => marks.map((mk, i) => {
    const id = defs[i].id;
    const m = view.getMarkById(id + '-mark');
    if (!m) throw new Error('no mark ' + id);
    const t = defs[i].t;
    const tr = defs.tr;
    const parts = m.elements.filter(e => e.diffState !== 'exit').map(e => {
      const g = e.getGraphicItem(), a = g.attribute;
      const line = LINE[t] || RULE[t];
      const main = t === 'line' || RULE[t] ? a.stroke : a.fill, second = t === 'line' || RULE[t] ? undefined : a.stroke;
      let ps;
      if (LINE[t]) ps = e.items.map((it, j) => { const p = (a.points || [])[j] || {}; return { i: it.datum.i, x: num(p.x), y: num(p.y), x1: num(p.x1), y1: num(p.y1), size: NAI, text: NAI }; });
      else if (RULE[t]) { const q = a.points || [{}, {}]; ps = [{ i: e.getDatum().i, x: num((a.x || 0) + q[0].x), y: num((a.y || 0) + q[0].y), x1: num((a.x || 0) + q[1].x), y1: num((a.y || 0) + q[1].y), size: NAI, text: NAI }]; }
      else ps = [{ i: e.getDatum().i, x: num(a.x), y: num(a.y), x1: num(a.x1), y1: num(a.y1), size: t === 'symbol' && defs[i].size ? num(a.size) : NAI, text: t === 'text' && a.text !== undefined ? (UNCAT[a.text] || +a.text) : NAI }];
      if (LINE[t] && (a.points || []).length !== e.items.length) ps.push({ i: -1, x: 0, y: 0, x1: 0, y1: 0, size: 0, text: 0 });
      return { c: code(main), s: code(second), ps };
    });
    return parts;
  });
  defs.tr = 'none';
  for (const e of cmds) {
    const line = Object.assign({}, e);
    try {
      if (e.op === 'add') {
        if (rnd.bool(0.15) && marks.length === 0 && defs.tr === 'none') {
          const m = e.m, enc = {}, sc = {};
          Object.keys(m.enc).forEach(ch => (enc[ch] = field(m.enc[ch]))); Object.keys(m.sc).forEach(ch => (sc[ch] = optOf(m.sc[ch])));
          plot.parseSpec({ width: box[0], height: box[1], padding: 0, marks: [{ type: m.t, id: 'spec' + marks.length, data: { values: rowsOf(m.rows), id: m.did || undefined }, encode: enc, scale: sc, style: styleOf(m.sty) }] });
          marks.push(plot._semanticMarks[plot._semanticMarks.length - 1]);
        } else { const mk = plot[e.m.t](); marks.push(mk); define(mk, e.m, marks.length - 1); }
        defs.push({ id: marks[marks.length - 1].spec.id, t: e.m.t, did: e.m.did, size: !!e.m.enc.size });
      } else if (e.op === 'redo') { const mk = marks[e.i - 1]; mk.clear(); define(mk, e.m, e.i - 1); defs[e.i - 1].did = e.m.did; defs[e.i - 1].size = !!e.m.enc.size; }
      else if (e.op === 'data') { const d = defs[e.i - 1]; marks.forEach((mk, j) => { if (j === e.i - 1 || (d.did && defs[j].did === d.did)) mk.data(rowsOf(e.rows), undefined, d.did || undefined); }); }
      else if (e.op === 'enc') { marks[e.i - 1].encode(e.ch, field(e.fs)); if (e.ch === 'size') defs[e.i - 1].size = true; }
      else if (e.op === 'scale') marks[e.i - 1].scale(e.ch, optOf(e.o));
      else if (e.op === 'style') marks[e.i - 1].style(styleOf(e.sty));
      else if (e.op === 'coord') { plot.coordinate('cartesian', e.tr === 'swap' ? { transpose: true } : {}); defs.tr = e.tr; }
      else if (e.op === 'size') { view.resize(e.w, e.h); box = [e.w, e.h]; if (cmds.indexOf(e) >= 0 && e.now) line.obs = observe(); }
      else if (e.op === 'run') { plot.run(); L.clock.frame(16); line.obs = observe(); }
    } catch (err) { L.emit({ op: 'threw', at: e.op, msg: String(err && err.stack).slice(0, 400) }); try { plot.release(); } catch (x) {} return; }
    L.emit(line);
  }
  plot.release();
  L.clock.frame(16);
}
// a channel once drawn stays given (known finding stale-channel): a stroke is not taken away from a mark that was drawn with one
const BOX = { line: 1, rule: 1, ruleX: 1, ruleY: 1 };
const keepStroke = cmds => {
  const seen = [], now = [];
  return cmds.map(e0 => {
    const e = JSON.parse(JSON.stringify(e0));
    const had = m => m.enc.stroke || m.sty.stroke;
    const copy = m => JSON.parse(JSON.stringify(m));
    if (e.op === 'add') { now.push(copy(e.m)); seen.push(false); }
    else if (e.op === 'redo' || e.op === 'style') {
      const t = now[e.i - 1].t;
      if (e.op === 'redo') { e.m.t = t; if (seen[e.i - 1] && !had(e.m)) e.m.sty.stroke = 202; now[e.i - 1] = copy(e.m); }
      else { if (seen[e.i - 1] && !now[e.i - 1].enc.stroke && !e.sty.stroke) e.sty.stroke = 202; now[e.i - 1].sty = copy(e.sty); }
    } else if (e.op === 'run' || e.op === 'size') now.forEach((m, i) => { if (!BOX[m.t] && had(m)) seen[i] = true; });
    return e;
  });
};
const finish = cmds => { const out = keepStroke(cmds); if (!out.length || out[out.length - 1].op !== 'run') out.push({ op: 'run' }); out.push({ op: 'run' }); return out; };
const col = e => { const fix = (ch, o) => { if (ch !== 'x' && ch !== 'y' && ch !== 'size') o.col = 1; }; if (e.op === 'scale') fix(e.ch, e.o); if (e.m) Object.keys(e.m.sc).forEach(ch => fix(ch, e.m.sc[ch])); return e; };
let i = 0;
for (const b of L.behaviours()) exec(b[0].cfg, finish(b.slice(1).map(col)), L.rng(L.seed * 7907 + ++i));
const NOSTYLE = { fill: 0, stroke: 0, max: NAI, min: NAI, ig: ['px', 0], cat: ['pct', 20] };
// the known finding: a stroke taken away from a drawn mark stays
const knownStale = () => {
  const rows = [{ i: 1, k: 1, g: 11, v: 1, w: 1, u: 1 }, { i: 2, k: 2, g: 12, v: 5, w: 2, u: 3 }];
  const m = (enc, sty) => ({ t: 'symbol', did: '', rows, enc, sc: {}, sty });
  exec({ w: 240, h: 180, pn: palette.length }, [{ op: 'add', m: m({ x: ['k'], y: ['v'], stroke: ['g'] }, NOSTYLE) }, { op: 'run' }, { op: 'redo', i: 1, m: m({ x: ['k'], y: ['v'] }, NOSTYLE) }, { op: 'run' }], L.rng(1), 'stale-channel');
};
knownStale();
const N = L.quick ? 220 : 4000;
for (let j = 0; j < N; j++) {
  const r = L.rng(L.seed * 104729 + j + 31);
  const cfg = { w: r.pick([240, 300, 100, 97]), h: r.pick([180, 200, 120]), pn: palette.length };
  const lo = r.pick([0, 0, 2, -8]), hi = r.pick([9, 20]);
  const rowsOf = () => { const out = []; const n = r.int(1, 6); for (let q = 0; q < n; q++) out.push({ i: q + 1, k: r.int(1, 4), g: 10 + r.int(1, 3), v: r.int(lo, hi), w: r.int(lo, hi), u: r.int(0, 20) }); return out; };
  const types = r.subset(['interval', 'symbol', 'line', 'area', 'text', 'cell', 'rect', 'rectX', 'rectY', 'rule', 'ruleX', 'ruleY'], 4);
  const flat = r.bool(0.35);     // a coordinate may be used: no marks that span the box
  const usable = types.filter(t => !flat || !['rectX', 'rectY', 'ruleX', 'ruleY'].includes(t));
  if (!usable.length) usable.push('interval');
  const ms = [], cmds = [], ids = {};
  let tr = 'none';
  const num1 = () => r.pick(['v', 'w']);
  const style = () => ({ fill: r.pick([0, 0, 201]), stroke: r.pick([0, 0, 202]), max: r.pick([NAI, NAI, 12, 30]), min: r.pick([NAI, NAI, 5, 25]), ig: r.pick([['px', 0], ['px', 3], ['pct', 10]]), cat: r.pick([['pct', 20], ['pct', 50], ['px', 8], ['px', 500]]) });
  const hasOwn = (m, ch) => m.sc[ch] && m.sc[ch].id;
  // options of a shared scale; a scale turned linear serves numbers only
  const opts = (m, ch) => {
    const o = {};
    if (m.sc[ch] && m.sc[ch].id) o.id = m.sc[ch].id; else if (r.bool(0.2)) o.id = r.pick(['own-' + ch, 'other-' + ch]);
    if (ch === 'y') { if (r.bool(0.4)) o.zero = 1; if (r.bool(0.3)) o.max = r.int(5, 30); if (r.bool(0.3)) o.min = r.int(-10, 5); if (r.bool(0.2)) o.dom = [r.int(-5, 0), r.int(8, 25)]; if (tr === 'none' && !flat && r.bool(0.15)) o.rng = [r.int(50, 90), r.int(0, 20)]; }
    else if (ch === 'x') { if (r.bool(0.4)) o.padding = r.pick([50, 25, 100]); if (r.bool(0.3)) o.type = r.pick(['band', 'point']); if (r.bool(0.2)) { o.dom = [4, 3, 2, 1]; o.cat = 1; } }
    else if (ch === 'size') o.rng = [4, r.int(8, 24)];
    else { o.col = 1; if (r.bool(0.6)) o.rng = r.pick([[101, 102, 103], [103, 101]]); if (r.bool(0.3)) { o.dom = [13, 12, 11]; o.cat = 1; } }
    return o;
  };
  const newMark = (t, keepId) => {
    const enc = {};
    if (t !== 'rectY' && t !== 'ruleY') enc.x = ['k'];
    if (t !== 'rectX' && t !== 'ruleX') enc.y = ['interval', 'area', 'rect', 'rule'].includes(t) && r.bool(0.3) ? r.pick([['v', 'w'], ['w', 'v']]) : [num1()];
    const gc = r.pick(['', '', 'group', 'color', 'both', 'stroke']);
    if (gc === 'group' || gc === 'both') enc.group = ['g'];
    if (gc === 'color' || gc === 'both') enc.color = ['g'];
    if (gc === 'stroke' && ['interval', 'symbol', 'rect', 'cell', 'rectX', 'rectY'].includes(t)) enc.stroke = ['g'];
    if (t === 'text') enc.text = [r.pick(['u', 'k', 'v'])];
    if (t === 'symbol' && r.bool(0.3)) enc.size = ['u'];
    const did = keepId ? '' : r.pick(['', '', 'd1', 'd2']);
    const m = { t, did, rows: did && ids[did] ? ids[did] : rowsOf(), enc, sc: {}, sty: r.bool(0.3) ? style() : NOSTYLE };
    if (did) ids[did] = m.rows;
    Object.keys(enc).forEach(ch => { if (ch !== 'text' && r.bool(0.2)) m.sc[ch] = opts(m, ch); });
    return m;
  };
  const n = r.int(3, L.quick ? 12 : 20), often = r.pick([0.1, 0.5]);
  for (let q = 0; q < n; q++) {
    if (q > 0 && r.bool(often) && cmds[cmds.length - 1].op !== 'run') cmds.push({ op: 'run' });
    const o = q === 0 ? 0 : flat && tr === 'none' && r.bool(0.2) ? 9 : r.int(0, 11);
    const p = ms.length ? r.int(0, ms.length - 1) : -1, m = ms[p];
    if (o <= 1 && ms.length < 4) { const x = newMark(r.pick(usable)); ms.push(x); cmds.push({ op: 'add', m: JSON.parse(JSON.stringify(x)) }); }
    else if (o <= 3) { const rows = rowsOf(); ms.forEach(x => { if (x === m || (m.did && x.did === m.did)) x.rows = rows; }); if (m.did) ids[m.did] = rows; cmds.push({ op: 'data', i: p + 1, rows }); }
    else if (o === 4 && m.enc.y && m.enc.y.length === 1) { m.enc.y = [num1()]; cmds.push({ op: 'enc', i: p + 1, ch: 'y', fs: m.enc.y.slice() }); }
    else if (o === 5) { const ch = r.pick(['group', 'color']); if (!m.enc[ch]) { m.enc[ch] = ['g']; cmds.push({ op: 'enc', i: p + 1, ch, fs: ['g'] }); } }
    else if (o === 6) { const ch = r.pick(Object.keys(m.enc).filter(c => c !== 'text')); const x = opts(m, ch); m.sc[ch] = x; cmds.push({ op: 'scale', i: p + 1, ch, o: JSON.parse(JSON.stringify(x)) }); }
    else if (o === 7) { const s = style(); m.sty = s; cmds.push({ op: 'style', i: p + 1, sty: s }); }
    else if (o === 8 && (!m.did || !ms.some(x => x !== m && x.did === m.did))) { const x = newMark(m.t, true); ms[p] = x; cmds.push({ op: 'redo', i: p + 1, m: JSON.parse(JSON.stringify(x)) }); }
    else if (o === 9 && flat && tr === 'none' && !ms.some(x => Object.values(x.sc).some(c => c.rng && c.rng[0] < 100 && !('col' in c) && c.rng[0] > 30))) { tr = r.pick(['plain', 'swap']); cmds.push({ op: 'coord', tr }); }
    else if (o === 10) cmds.push({ op: 'size', w: r.pick([320, 150, 64]), h: r.pick([160, 90]) });
    else if (o >= 10 && cmds.length && cmds[cmds.length - 1].op !== 'run') cmds.push({ op: 'run' });
  }
  exec(cfg, finish(cmds), r);
}
L.done();
