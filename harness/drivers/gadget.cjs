// Titles, labels, sliders, scrollbars, players and data zooms of a view.
const L = require('../lib.cjs');
const V = L.V;
const TAGS = ['title', 'slider', 'scrollbar', 'discretePlayer', 'continuousPlayer', 'datazoom', 'dataLabel', 'rectLabel', 'symbolLabel', 'lineDataLabel'];
for (const t of ['t1', 't2']) {
  const components = {};
  TAGS.forEach(k => (components[k] = { vgTag: t + k }));
  if (t === 't1') Object.assign(components.scrollbar, { width: 14, height: 14 });
  V.ThemeManager.registerTheme(t, { components });
}
const nn = x => (x === -1 ? undefined : x);
const S = x => (x === undefined || x === null ? '' : String(x));
const I = x => (typeof x === 'number' && isFinite(x) ? Math.round(x * 1000) % 1000 === 0 ? Math.round(x) : -77777 : -99999);
const TYPES = { R: 'rect', S: 'symbol', N: 'line' };
function exec(cfg, cmds, rnd) {
  L.mark({ cfg, cmds });
  L.emit({ op: 'reset', cfg });
  const view = L.mkView({});
  if (view.getCurrentTheme() !== V.ThemeManager.getTheme(cfg.th)) view.theme(cfg.th);
  const st = JSON.parse(JSON.stringify(cfg));
  const rows = v => v.map(r => Object.assign({}, r));
  const data = {}; ['D', 'E'].forEach(k => (data[k] = view.data(rows(cfg.d[k])).id(k)));
  const sigs = {};
  // an option given as a constant, a signal or a function of a signal
  const opt = (name, v) => {
    if (v === undefined) return undefined;
    if (!sigs[name] && rnd.bool(0.6)) return rnd.bool() ? v : () => v;
    if (!sigs[name]) sigs[name] = view.signal(v).id('s_' + name); else view.updateSignal('s_' + name, v);
    return rnd.bool() ? { signal: 's_' + name } : { dependency: ['s_' + name], callback: (...a) => a[a.length - 1]['s_' + name] };
  };
  if (cfg.styleSig) view.signal(cfg.lb.style).id('style');
  const X = view.scale('linear').id('X').domain([0, cfg.x.dx]).range([0, cfg.x.rx]);
  const Y = view.scale('linear').id('Y').domain([0, 10]).range([0, 10 * cfg.x.my]);
  const grp = view.mark('group', view.rootMark).id('grp').encode({ x: 0, y: 0, width: cfg.grp[0], height: cfg.grp[1] });
  const con = view.mark('group', view.rootMark).id('con').encode({ x: 0, y: 0, width: cfg.con[0], height: cfg.con[1] });
  const M = {
    R: view.mark('rect', grp).id('R').join('D', 'k').encode({ x: d => d.v, y: 0, width: 5, height: 5, fill: '#ff0000' }),
    S: view.mark('symbol', grp).id('S').join('E', 'k').encode({ x: d => d.v, y: 0, size: 5, fill: '#ff0000' }),
    N: view.mark('line', grp).id('N').join('D').encode({ x: d => d.v, y: d => d.w, stroke: '#ff0000' })
  };
  const build = (type, spec, api, grp0) => {
    const spec0 = Object.assign({ type: 'component', componentType: type, encode: { update: {} } }, cfg.skip || rnd.bool() ? { skipTheme: cfg.skip } : {});
    if (grp0) spec0.group = rnd.bool() ? 'grp' : grp0;
    const m = view.mark('component', grp0 || view.rootMark, { componentType: type });
    if (rnd.bool()) { Object.keys(spec).forEach(k => spec[k] === undefined && delete spec[k]); m.parse(Object.assign(spec0, spec)); return m; }
    m.parse(spec0);
    api(m);
    return m;
  };
  const enc = {
    title: () => (st.ti.own ? { vgTag: st.ti.own } : { x: 1 }),
    slider: () => Object.assign({ layout: 'horizontal', railWidth: 100, railHeight: 10 }, st.sl.own ? { vgTag: st.sl.own } : {}, st.sl.value.length ? { value: st.sl.value.slice() } : {}),
    scrollbar: () => Object.assign({ range: [0, 0.5] }, st.sb.own ? { vgTag: st.sb.own } : {}, st.sb.size > 0 ? { width: undefined } : {}),
    player: () => Object.assign({ size: { width: 100, height: 20 } }, st.pl.own ? { vgTag: st.pl.own } : {}, st.pl.index >= 0 ? { dataIndex: st.pl.index } : {}),
    zoom: () => ({ position: { x: 0, y: 0 }, start: 0, end: 1, size: { width: 100, height: 20 }, orient: 'bottom' }),
    label: () => ({ text: st.lb.text === 'k' ? (rnd.bool() ? { field: 'k' } : d => d.k) : d => String(d.v), fill: '#000000' })
  };
  const T = build('title', { title: opt('title', cfg.ti.text), subTitle: opt('sub', cfg.ti.sub), encode: { update: enc.title() } }, m => m.title(opt('title', cfg.ti.text)).subTitle(opt('sub', cfg.ti.sub)).encode(enc.title()));
  const style = () => (mark, params) => {
    const t = TYPES[mark.id()];
    return { type: t === 'line' ? 'line-data' : t, smartInvert: false, overlap: false, vgStyle: st.lb.style, vgIndex: params.labelIndex };
  };
  const target = tg => { const a = tg.map(x => (rnd.bool() ? x : M[x])); return a.length === 1 && rnd.bool() ? a[0] : a; };
  const lsize = v => (v.length ? opt('size', { width: v[0], height: v[1] }) : undefined);
  const lstyle = () => (cfg.styleSig ? { dependency: ['style'], callback: style() } : style());
  const B = build('label', { target: target(cfg.lb.tg), labelStyle: lstyle(), size: lsize(cfg.lb.size), encode: { update: enc.label() } }, m => m.target(target(cfg.lb.tg)).labelStyle(lstyle()).size(lsize(cfg.lb.size)).encode(enc.label()), grp);
  const Sl = build('slider', { min: opt('min', nn(cfg.sl.lo)), max: opt('max', nn(cfg.sl.hi)), encode: { update: enc.slider() } }, m => m.min(opt('min', nn(cfg.sl.lo))).max(opt('max', nn(cfg.sl.hi))).encode(enc.slider()));
  const sbEnc = () => { const o = enc.scrollbar(); delete o.width; return o; };
  const cont = v => (v ? (rnd.bool() ? 'con' : con) : undefined);
  const Sb = build('scrollbar', { direction: opt('dir', cfg.sb.dir || undefined), position: opt('pos', cfg.sb.pos || undefined), container: cont(cfg.sb.con), encode: { update: sbEnc() } },
    m => m.direction(opt('dir', cfg.sb.dir || undefined)).position(opt('pos', cfg.sb.pos || undefined)).container(cont(cfg.sb.con)).encode(sbEnc()), grp);
  const src = v => (rnd.bool(0.7) ? (rnd.bool() ? v : data[v]) : null);
  const psrc = v => src(v) || data[v];
  const Pl = build('player', { source: psrc(cfg.pl.src), playerType: cfg.pl.type, encode: { update: enc.player() } }, m => m.source(psrc(cfg.pl.src)).playerType(cfg.pl.type).encode(enc.player()));
  const ch = (s, g, field) => (rnd.bool() ? { scale: s, field } : { scale: g, field });
  const Dz = build('datazoom', { preview: { data: psrc(cfg.dz.src), x: ch('X', X, 'v'), y: ch('Y', Y, cfg.dz.y) }, encode: { update: enc.zoom() } }, m => m.preview(psrc(cfg.dz.src), ch('X', X, 'v'), ch('Y', Y, cfg.dz.y)).encode(enc.zoom()));
  const one = (m, name) => {
    if (m.elements.length !== 1) throw new Error(name + ' has ' + m.elements.length + ' elements');
    const g = m.elements[0].getGraphicItem();
    const kids = m.graphicParent.getChildren().filter(c => c.constructor === g.constructor);
    if (kids.length !== 1) throw new Error(name + ' is shown ' + kids.length + ' times');
    return g;
  };
  const observe = line => {
    let a = one(T, 'title').attribute;
    line.title = { text: S(a.text), sub: S(a.subtext), tag: S(a.vgTag) };
    a = one(Sl, 'slider').attribute;
    line.slider = { lo: I(a.min), hi: I(a.max), value: (a.value || []).map(I), tag: S(a.vgTag) };
    a = one(Sb, 'scrollbar').attribute;
    line.scrollbar = { dir: S(a.direction), box: [I(a.x), I(a.y), I(a.width), I(a.height)], tag: S(a.vgTag) };
    let g = one(Pl, 'player'); a = g.attribute;
    line.player = { ks: (a.data || []).map(r => S(r.k)), index: I(a.dataIndex), kind: g.name || '', tag: S(a.vgTag) };
    line.player.kind = /Continuous/.test(g.constructor.name) ? 'continuousPlayer' : /Discrete/.test(g.constructor.name) ? 'discretePlayer' : '?';
    g = one(Dz, 'datazoom'); a = g.attribute;
    const pd = a.previewData || [];
    line.zoom = { ks: pd.map(r => S(r.k)), tag: S(a.vgTag), xs: pd.map(r => I(g._previewPointsX(r))), ys: pd.map(r => I(g._previewPointsY(r))), inv: [0, 0.25, 0.5, 0.75, 1].map(q => L.FX(g._statePointToData(q), 1000)) };
    g = one(B, 'label'); a = g.attribute;
    line.label = {
      size: [I(a.size.width), I(a.size.height)], tag: S(a.vgTag),
      labels: (a.dataLabels || []).map(l => {
        const bases = l.getBaseMarks();
        const m = Object.keys(M).find(x => M[x].graphicItem && M[x].graphicItem.name === l.baseMarkGroupName) || '?';
        const ks = bases.map(b => { const d = b['__vgrammar_scene_item__'].getDatum(); return d.k; });
        const ok = m === 'N' || JSON.stringify(ks) === JSON.stringify(data[m === 'S' ? 'E' : 'D'].getValue().map(d => d.k));
        return { m, i: I(l.vgIndex), style: S(l.vgStyle), tag: S(l.vgTag), texts: (l.data || []).map(d => S(d.text)), base: ok ? bases.length : -1 };
      })
    };
  };
  for (const e of cmds) {
    const line = Object.assign({}, e);
    try {
      if (e.op === 'data') { st.d[e.k] = e.v; data[e.k].values(rows(e.v)); }
      else if (e.op === 'scale') { st.x = e.v; X.domain([0, e.v.dx]).range([0, e.v.rx]); Y.range([0, 10 * e.v.my]); }
      else if (e.op === 'grp') grp.encode({ width: e.v[0], height: e.v[1] });
      else if (e.op === 'con') con.encode({ width: e.v[0], height: e.v[1] });
      else if (e.op === 'title') { st.ti[e.k] = e.v; if (e.k === 'text') T.title(opt('title', e.v)); else if (e.k === 'sub') T.subTitle(opt('sub', e.v)); else T.encode(enc.title()); }
      else if (e.op === 'label') {
        st.lb[e.k] = e.v;
        if (e.k === 'tg') B.target(target(e.v)); else if (e.k === 'style') { if (cfg.styleSig) view.updateSignal('style', e.v); else B.labelStyle(style()); } else if (e.k === 'size') B.size(lsize(e.v)); else B.encode(enc.label());
      } else if (e.op === 'slider') { st.sl[e.k] = e.v; if (e.k === 'lo') Sl.min(opt('min', nn(e.v))); else if (e.k === 'hi') Sl.max(opt('max', nn(e.v))); else Sl.encode(enc.slider()); }
      else if (e.op === 'scrollbar') {
        st.sb[e.k] = e.v;
        if (e.k === 'dir') Sb.direction(opt('dir', e.v || undefined)); else if (e.k === 'pos') Sb.position(opt('pos', e.v || undefined)); else if (e.k === 'con') Sb.container(cont(e.v)); else Sb.encode(sbEnc());
      } else if (e.op === 'player') { st.pl[e.k] = e.v; if (e.k === 'src') Pl.source(psrc(e.v)); else if (e.k === 'type') Pl.playerType(e.v); else Pl.encode(enc.player()); }
      else if (e.op === 'zoom') { st.dz = e.v; Dz.preview(psrc(e.v.src), ch('X', X, 'v'), ch('Y', Y, e.v.y)); }
      else if (e.op === 'theme') { st.th = e.v; view.setCurrentTheme(e.v, rnd.bool()); }
      else if (e.op === 'run') { view.run(); observe(line); }
    } catch (err) { L.emit({ op: 'threw', at: e.op, msg: String(err && err.stack).slice(0, 400) }); L.dropView(view); return; }
    L.emit(line);
  }
  L.dropView(view);
}
let i = 0;
for (const b of L.behaviours()) { const r = L.rng(L.seed * 7907 + ++i); exec(Object.assign({ styleSig: r.bool(0.4) }, b[0].cfg), b.slice(1), r); }
const N = L.quick ? 60 : 900;
for (let j = 0; j < N; j++) {
  const r = L.rng(L.seed * 104729 + j + 17);
  const ab = ['a', 'b', 'c', 'd', 'e', 'f'];
  const rowsOf = () => r.shuffle(ab).slice(0, r.int(2, 6)).map(k => ({ k, v: r.int(0, 20), w: r.int(0, 10) }));
  const size = () => [r.int(30, 200), r.int(30, 150)];
  const xs = () => r.pick([{ dx: 10, rx: 100 }, { dx: 20, rx: 200 }, { dx: 10, rx: 50 }, { dx: 20, rx: 60 }].map(o => Object.assign({ my: r.int(1, 4) }, o)));
  const tg = () => r.shuffle(['R', 'S', 'N']).slice(0, r.int(1, 3));
  const dir = () => r.pick(['', 'horizontal', 'vertical']), pos = () => r.pick(['', 'top', 'bottom', 'left', 'right']);
  const cfg = {
    styleSig: r.bool(0.4), d: { D: rowsOf(), E: rowsOf() }, x: xs(), grp: size(), con: size(), th: r.pick(['t1', 't2']), skip: r.bool(0.25),
    ti: { text: r.pick(ab), sub: r.pick(ab), own: '' }, lb: { tg: tg(), style: r.pick(['', 'p']), text: r.pick(['k', 'v']), size: r.bool(0.3) ? size() : [] },
    sl: { lo: r.pick([-1, 2, 5]), hi: r.pick([-1, 20, 30]), own: '', value: [] }, sb: { dir: dir(), pos: pos(), con: r.bool(), size: -1, own: '' },
    pl: { src: r.pick(['D', 'E']), type: r.pick(['auto', 'discrete', 'continuous']), own: '', index: -1 }, dz: { src: r.pick(['D', 'E']), y: r.pick(['v', 'w']) }
  };
  const cmds = [{ op: 'run' }];
  const n = r.int(3, L.quick ? 6 : 10);
  for (let q = 0; q < n; q++) {
    const m = r.int(1, 3);
    for (let p = 0; p < m; p++) {
      const o = r.int(0, 10);
      const own = () => r.pick(['mine', 'own']);
      if (o === 0) cmds.push({ op: 'data', k: r.pick(['D', 'E']), v: rowsOf() });
      else if (o === 1) cmds.push({ op: 'scale', v: xs() });
      else if (o === 2) cmds.push({ op: r.pick(['grp', 'con']), v: size() });
      else if (o === 3) { const k = r.pick(['text', 'sub', 'own']); cmds.push({ op: 'title', k, v: k === 'own' ? own() : r.pick(ab) }); }
      else if (o <= 5) { const k = r.pick(['tg', 'style', 'text', 'size']); cmds.push({ op: 'label', k, v: k === 'tg' ? tg() : k === 'style' ? r.pick(['', 'p', 'q']) : k === 'text' ? r.pick(['k', 'v']) : r.bool() ? size() : [] }); }
      else if (o === 6) { const k = r.pick(['lo', 'hi', 'own', 'value']); cmds.push({ op: 'slider', k, v: k === 'lo' ? r.pick([-1, 2, 5]) : k === 'hi' ? r.pick([-1, 20, 30]) : k === 'own' ? own() : [r.int(6, 9), r.int(10, 19)] }); }
      else if (o === 7) { const k = r.pick(['dir', 'pos', 'con', 'own']); cmds.push({ op: 'scrollbar', k, v: k === 'dir' ? dir() : k === 'pos' ? pos() : k === 'con' ? r.bool() : own() }); }
      else if (o === 8) { const k = r.pick(['src', 'type', 'own', 'index']); cmds.push({ op: 'player', k, v: k === 'src' ? r.pick(['D', 'E']) : k === 'type' ? r.pick(['auto', 'discrete', 'continuous']) : k === 'own' ? own() : r.int(0, 1) }); }
      else if (o === 9) cmds.push({ op: 'zoom', v: { src: r.pick(['D', 'E']), y: r.pick(['v', 'w']) } });
      else cmds.push({ op: 'theme', v: r.pick(['t1', 't2']) });
    }
    cmds.push({ op: 'run' });
  }
  exec(cfg, cmds, r);
}
L.done();
