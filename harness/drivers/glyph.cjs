// Glyph marks: the parts every element draws, under data, direction, encodings and states.
const L = require('../lib.cjs');
const V = L.V;
for (const n of ['Boxplot', 'BarBoxplot', 'Ripple', 'Wave', 'LinkPath', 'TreePath', 'Violin']) V['register' + n + 'Glyph']();
V.Factory.registerGlyph('vgCustom', { a: 'rect', b: 'symbol' })
  .registerFunctionEncoder((v, d, el, c) => ({ a: { x: v.p + v.w, y: v.q }, b: { size: v.w } }))
  .registerChannelEncoder('p', (ch, v, all, d, el, c) => ({ a: { width: v }, b: { x: 2 * v + (c && c.direction === 'horizontal' ? 100 : 0) } }))
  .registerChannelEncoder({ o: (ch, v) => ({ a: { height: v }, b: { visible: true } }) })
  .registerDefaultEncoder(() => ({ a: { fill: '#000000', x: 3, height: 5 }, b: { visible: false, size: 7 } }));
const NIL = 999999, NAN = 888888;
const COLORS = { '#ff807f': 101, '#ff0000': 102, '#000000': 103, '#FFFFFF': 104 };
const color = i => '#0000' + (10 + i);
for (let i = 1; i < 9; i++) COLORS[color(i)] = i;
const C = x => (x === undefined || x === null ? NIL : x === false ? 0 : COLORS[x] || NAN);
const near = v => Math.abs(v - Math.round(v)) < 1e-6;
const K = x => (x === undefined || x === null ? NIL : typeof x === 'number' && isFinite(x) && near(x * 32) ? Math.round(x * 32) : NAN);
const F = x => (x === undefined || x === null ? NIL : typeof x === 'number' && near(x * 10000) ? Math.round(x * 10000) : NAN);
const N = x => (x === undefined || x === null ? NIL : Number.isInteger(x) ? x : NAN);
// what a channel's integer stands for
const PATH = ['smooth', 'line', 'polyline'], ALIGN = ['start', 'center', 'end'], DIRS = ['horizontal', 'vertical', 'TB', 'LR'];
function real(c, v) {
  if (/^(fill|stroke)$/.test(c) || /^(medianFill|violinFill|violinStroke)$/.test(c)) return color(v);
  if (c === 'backgroundStyle') return { fill: color(v) };
  if (c === 'startArrowStyle' || c === 'endArrowStyle') return { stroke: color(v) };
  if (c === 'lineWidth') return v;
  if (c === 'pathType') return PATH[v];
  if (c === 'align') return ALIGN[v];
  if (c === 'direction') return DIRS[v];
  if (c === 'round' || c === 'startArrow' || c === 'endArrow') return !!v;
  return v / 4;
}
const PLAIN = { boxplot: 1, barBoxplot: 1 };
function tokens(p) {
  const out = [];
  if (typeof p !== 'string') return [NAN];
  const re = /([MLCZ])|(-?\d+(?:\.\d+)?(?:e-?\d+)?)|([^\s,])/g;
  let m;
  while ((m = re.exec(p))) out.push(m[1] ? { M: 900001, L: 900002, C: 900003, Z: 900004 }[m[1]] : m[2] ? K(Number(m[2])) : NAN);
  return out;
}
const flat = (pts, ks) => (Array.isArray(pts) ? [].concat(...pts.map(p => ks.map(k => K(p[k])))) : [NAN]);
function geom(t, n, a) {
  if (t === 'linkPath' || t === 'treePath') return tokens(a.path);
  if (t === 'wave') return flat(a.points, ['x', 'y', 'y1']);
  if (t === 'ripplePoint') return [K(a.size)];
  if (t === 'vgCustom') return n === 'a' ? [K(a.x), K(a.y), K(a.width), K(a.height)] : [K(a.size), K(a.x)];
  if (n === 'violin') return flat(a.points, ['x', 'y']);
  if (t === 'violin' && n === 'median') return [K(a.x), K(a.y)];
  if (/box$/i.test(n)) return [K(a.x), K(a.y), K(a.x1), K(a.y1)];
  return flat(a.points, ['x', 'y']);
}
function exec(cfg, cmds, rnd) {
  L.mark({ cfg, cmds });
  L.emit(Object.assign({ op: 'reset', cfg }, cfg.tag ? { tag: cfg.tag } : {}));
  const view = L.mkView({});
  const st = JSON.parse(JSON.stringify(cfg));
  let turned = false;
  const rows = v => v.map(r => { const o = { k: r.k }; Object.keys(r).forEach(f => { if (f !== 'k') o[f] = r[f]; }); o.den = [[r.a / 4, 1], [r.b / 4, 2], [r.c / 4, 4]]; return o; });
  const one = (c, x, viaFn) => {
    if (x.f === '') { const v = real(c, x.v); return rnd.bool(0.3) ? () => v : v; }
    return d => real(c, d[x.f]);
  };
  const enc = m => { const o = {}; Object.keys(m).forEach(c => (o[c] = one(c, m[c]))); return o; };
  const allEnc = () => { const o = enc(st.enc); if (st.t === 'violin') o.density = { field: 'den', scale: 'S' }; return o; };
  let m;
  const frames = n => { for (let i = 0; i < n; i++) L.clock.frame(16); };
  try {
    const S = view.scale('linear').id('S').domain([0, 100]).range([0, 100 * cfg.rng]);
    const D = view.data(rows(cfg.rows)).id('D');
    m = view.glyph(cfg.t, view.rootMark).id('G').join('D', 'k').encode(allEnc());
    if (cfg.dir !== '') m.configureGlyph({ direction: cfg.dir });
    Object.keys(cfg.sts).forEach(n => m.encodeState(n, enc(cfg.sts[n])));
    if (cfg.anim) {
      const types = { boxplot: 'boxplotScale', barBoxplot: 'barBoxplotScale', linkPath: 'linkPathGrow', treePath: 'treePathGrow' }[cfg.t];
      const a = { update: { type: 'update', duration: 30 } };
      if (types) a.enter = { type: types + 'In', duration: 30 };
      if (types && /Path/.test(cfg.t)) a.update = { type: cfg.t + 'Update', duration: 30 };
      m.animation(a);
    }
    const settle = () => { if (cfg.anim) frames(6); };
    const show = () => m.elements.slice().sort((a, b) => a.getDatum().k - b.getDatum().k).map(e => {
      const gs = e.getGlyphGraphicItems();
      return {
        k: e.getDatum().k, st: e.getStates().slice(), parts: Object.keys(gs).map(n => {
          const a = gs[n].attribute;
          const vis = a.visible === false ? 0 : 1;
          return { n, g: vis ? geom(cfg.t, n, a) : [], vis, fill: C(a.fill), stroke: C(a.stroke), lw: N(a.lineWidth), fo: F(a.fillOpacity), ang: n === 'violin' ? NIL : K(a.angle), anc: n !== 'violin' && Array.isArray(a.anchor) ? a.anchor.map(K) : [], z: N(a.zIndex) };
        })
      };
    });
    view.run(); settle();
    L.emit({ op: 'show', els: show() });
    for (const c of cmds) {
      const e = c.k === undefined ? null : m.elements.find(x => x.getDatum().k === c.k);
      const line = JSON.parse(JSON.stringify(c));
      if (e === undefined) continue;
      if (c.op === 'rows') { D.values(rows(c.v)); }
      else if (c.op === 'dir') turned = true, m.configureGlyph(c.v === '' ? (rnd.bool() ? {} : undefined) : { direction: c.v });
      else if (c.op === 'rng') S.range([0, 100 * c.v]);
      else if (c.op === 'enc') { Object.assign(st.enc, c.v); m.encode(rnd.bool() ? allEnc() : enc(c.v)); }
      else if (c.op === 'sts') { const o = enc(c.v); m.encodeState(c.n, o, true); }
      else if (c.op === 'use') e.useStates(c.v);
      else if (c.op === 'add') e.addState(c.v.length === 1 && rnd.bool() ? c.v[0] : c.v);
      else if (c.op === 'own') e.addState(c.n, enc(c.v));
      else if (c.op === 'rem') e.removeState(rnd.bool() ? c.n : [c.n]);
      else if (c.op === 'clear') e.clearStates();
      else if (c.op === 'grow') {
        if (turned && PLAIN[cfg.t] && !st.enc.median && c.c === NIL) continue; // a hidden median keeps the place it had before the turn
        const type = { boxplot: 'boxplotScaleIn', barBoxplot: 'barBoxplotScaleIn', linkPath: 'linkPathGrowIn', treePath: 'treePathGrowIn' }[cfg.t];
        const r = V.Factory.getAnimationType(type)(e, c.c === NIL ? (rnd.bool() ? {} : undefined) : { center: c.c / 4 }, {});
        const ks = PLAIN[cfg.t] ? ['x', 'y', 'min', 'max', 'q1', 'q3', 'median'] : ['x0', 'y0', 'x1', 'y1'];
        line.from = ks.map(k => K(r.from[k])); line.to = ks.map(k => K(r.to[k]));
        L.emit(line);
        continue;
      }
      if (['rows', 'dir', 'rng', 'enc', 'sts'].includes(c.op)) { view.run(); settle(); }
      line.els = show();
      L.emit(line);
    }
  } catch (err) { L.emit({ op: 'threw', msg: String(err && err.stack).slice(0, 400) }); }
  L.dropView(view);
  if (cfg.anim) { frames(3); view.animate && view.animate.ticker && view.animate.ticker.stop && view.animate.ticker.stop(); }
}
let i = 0;
for (const b of L.behaviours()) exec(b[0].cfg, b.slice(1), L.rng(L.seed * 7907 + ++i));
// an active state under the animation of an update
exec({ t: 'ripplePoint', dir: '', enc: { x: { f: 'a', v: 0 }, y: { f: 'b', v: 0 }, size: { f: 'c', v: 0 }, ripple: { f: '', v: 1 } }, sts: { h: { size: { f: 'd', v: 0 } }, s: {} }, rows: [{ k: 1, a: 4, b: 8, c: 12, d: 16 }], rng: 1, anim: true, tag: 'state-under-update-animation' },
  [{ op: 'add', k: 1, v: ['h'] }, { op: 'rows', v: [{ k: 1, a: 8, b: 8, c: 20, d: 32 }] }], L.rng(1));
const N0 = L.quick ? 140 : 2500;
const BOX = ['x', 'y', 'width', 'height', 'min', 'max', 'q1', 'q3'];
for (let j = 0; j < N0; j++) {
  const r = L.rng(L.seed * 104729 + j + 31);
  const t = r.pick(['boxplot', 'barBoxplot', 'violin', 'ripplePoint', 'wave', 'linkPath', 'treePath', 'vgCustom']);
  const box = ['boxplot', 'barBoxplot', 'violin'].includes(t), link = t === 'linkPath' || t === 'treePath';
  const FS = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'];
  const row = k => { const o = { k }; FS.forEach(f => (o[f] = r.int(-80, 400))); return o; };
  const rowsOf = () => r.shuffle([1, 2, 3, 4]).slice(0, r.int(1, 4)).map(row);
  const X = () => (r.bool(0.7) ? { f: r.pick(FS), v: 0 } : { f: '', v: r.int(-80, 400) });
  const P = (lo, hi) => () => ({ f: '', v: r.int(lo, hi) });
  const G = {}; // generators of the channels of this type
  const opt = (c, g, p) => { G[c] = g; if (r.bool(p === undefined ? 0.5 : p)) use.push(c); };
  const use = [];
  const need = (c, g) => { G[c] = g; use.push(c); };
  opt('fill', P(1, 8)); opt('stroke', P(1, 8)); opt('lineWidth', P(1, 5), 0.3);
  if (t !== 'ripplePoint') opt('fillOpacity', P(0, 4), 0.3);
  let free = [];  // channels a state may add
  if (box) {
    BOX.forEach(c => need(c, c === 'width' || c === 'height' ? P(4, 80) : X));
    opt('median', X, 0.7); opt('angle', P(0, 40), 0.3);
    const sizes = { boxplot: ['boxWidth', 'boxHeight', 'ruleWidth', 'ruleHeight'], barBoxplot: ['minMaxWidth', 'q1q3Width', 'minMaxHeight', 'q1q3Height'], violin: ['boxWidth', 'boxHeight', 'densitySize'] }[t];
    sizes.forEach(c => { opt(c, P(4, 90), 0.3); free.push(c); });
    if (t === 'violin') ['medianFill', 'violinFill', 'violinStroke'].forEach(c => opt(c, P(1, 8), 0.4));
    if (t === 'barBoxplot') opt('minMaxFillOpacity', P(0, 4), 0.4);
  } else if (t === 'ripplePoint') { need('x', X); need('y', X); need('size', P(4, 80)); need('ripple', P(-2, 6)); }
  else if (t === 'wave') { need('y', X); need('height', P(4, 80)); need('wave', P(-4, 8)); }
  else if (link) {
    ['x0', 'y0', 'x1', 'y1'].forEach(c => need(c, X));
    opt('round', P(0, 1), 0.4); opt('pathType', P(0, 2)); opt('curvature', P(0, 4), 0.3); opt('direction', P(0, 3), 0.2);
    opt('startArrow', P(0, 1)); opt('endArrow', P(0, 1));
    if (t === 'linkPath') { need('thickness', () => ({ f: '', v: 2 * r.int(1, 30) })); opt('ratio', P(0, 5)); opt('align', P(0, 2)); opt('backgroundStyle', P(1, 8), 0.4); }
    else { opt('arrowSize', P(4, 30), 0.4); opt('startArrowStyle', P(1, 8), 0.4); opt('endArrowStyle', P(1, 8), 0.4); }
    free = ['curvature', 'pathType', 'round'].concat(t === 'linkPath' ? ['ratio', 'align'] : ['arrowSize']);
  } else { need('p', X); need('q', X); need('w', P(4, 80)); opt('o', X); }
  if (t === 'linkPath' && (use.includes('startArrow') || use.includes('endArrow'))) {
    // arrows of links that run backwards are left out
    const lo = () => ({ f: '', v: r.int(-80, 100) }), hi = () => ({ f: '', v: r.int(101, 400) });
    G.x0 = lo; G.y0 = lo; G.x1 = hi; G.y1 = hi;
  }
  const encOf = cs => { const o = {}; cs.forEach(c => (o[c] = G[c]())); return o; };
  const can = use.concat(free).filter((c, q, a) => a.indexOf(c) === q);
  const stOf = () => encOf(r.shuffle(can).slice(0, r.int(1, 3)));
  const cfg = { t, dir: r.pick(link ? ['', 'horizontal', 'vertical', 'LR', 'RL', 'TB', 'BT'] : ['', 'horizontal', 'vertical']), enc: encOf(use), sts: { h: stOf(), s: stOf() }, rows: rowsOf(), rng: r.int(1, 3), anim: r.bool(0.25) };
  const cmds = [];
  const n = r.int(4, L.quick ? 8 : 12);
  const names = () => r.subset(['h', 's']);
  for (let q = 0; q < n; q++) {
    const o = r.int(0, 10), k = r.int(1, 4);
    if (o <= 1) cmds.push({ op: 'rows', v: rowsOf() });
    else if (o > 3 && o < 10 && cfg.anim) continue;
    else if (o === 2) cmds.push(t === 'violin' && r.bool() ? { op: 'rng', v: r.int(1, 3) } : { op: 'dir', v: r.pick(['horizontal', 'vertical', '']) });
    else if (o === 3) cmds.push({ op: 'enc', v: encOf(r.shuffle(use).slice(0, r.int(1, 3))) });
    else if (o === 4) cmds.push({ op: 'sts', n: r.pick(['h', 's']), v: stOf() });
    else if (o === 5) cmds.push({ op: 'use', k, v: r.shuffle(names()) });
    else if (o === 6) { const v = names(); if (v.length) cmds.push({ op: 'add', k, v }); }
    else if (o === 7) cmds.push({ op: 'rem', k, n: r.pick(['h', 's', 'w']) });
    else if (o === 8) cmds.push({ op: 'clear', k });
    else if (o === 9) cmds.push({ op: 'own', k, n: r.pick(['h', 's', 'w']), v: stOf() });
    else if (PLAIN[t] || link) cmds.push({ op: 'grow', k, c: r.bool(0.3) && PLAIN[t] ? r.int(0, 200) : NIL });
  }
  exec(cfg, cmds, r);
}
L.done();
