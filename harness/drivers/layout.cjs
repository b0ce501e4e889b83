// Sizing of a view and its default layout.
const L = require('../lib.cjs');
const V = L.V;
const one = (r, o) => (o.length ? o[0] : undefined);
function padOf(r, p) { // an equivalent form of <<top, right, bottom, left>>
  const same = p.every(x => x === p[0]);
  if (same && r.bool()) return p[0];
  const o = {}; ['top', 'right', 'bottom', 'left'].forEach((f, i) => { if (p[i] !== 0 || r.bool()) o[f] = p[i]; });
  return o;
}
const box4 = b => [b.x1, b.y1, b.x2, b.y2].map(x => L.FX(x));
const track = t => (t.t === 'n' ? t.v : t.t === 'p' ? t.v + '%' : 'auto');
function exec(cfg, cmds, tag) {
  L.mark({ cfg, cmds });
  const r = L.rng(cfg.rnd ?? 7);
  L.emit(tag ? { op: 'reset', cfg, tag } : { op: 'reset', cfg });
  const opts = { width: cfg.opts.w, height: cfg.opts.h };
  if (cfg.opts.pad.length) opts.padding = padOf(r, cfg.opts.pad[0]);
  const view = L.mkView(opts);
  let resized = [];
  view.addEventListener('resize', (e, s) => { const d = s && 'width' in s ? s : e; resized.push([L.FX(d.width), L.FX(d.height)]); });
  const theme = th => { if (!th.length) return undefined; const t = Object.assign({}, V.ThemeManager.getDefaultTheme()); delete t.padding; if (th[0].length) t.padding = padOf(r, th[0][0]); return t; };
  const ext = x => (x.length === 0 ? undefined : x[0] === 'p' ? x[1] + '%' : x[1]);
  const clean = o => { for (const f in o) if (o[f] === undefined) delete o[f]; return o; };
  const contLay = l => (l.d === 'grid'
    ? clean({ display: 'grid', gridTemplateRows: l.rows.length ? l.rows.map(track) : undefined, gridTemplateColumns: l.cols.length ? l.cols.map(track) : undefined, gridRowGap: l.rg || undefined, gridColumnGap: l.cg || undefined })
    : clean({ display: 'relative', maxChildWidth: ext(l.mw), maxChildHeight: ext(l.mh), updateViewSignals: l.upd || undefined }));
  const cellLay = l => clean({ gridRowStart: one(r, l.rs), gridRowEnd: one(r, l.re), gridColumnStart: one(r, l.cs), gridColumnEnd: one(r, l.ce) });
  const itemLay = l => ('pos' in l ? clean({ position: l.pos, padding: padOf(r, l.pad), align: l.align || undefined, order: one(r, l.order) }) : cellLay(l));
  const rows = rs => rs.map((x, i) => ({ k: i, r: x }));
  const rectEnc = { x: d => d.r[0], y: d => d.r[1], width: d => d.r[2], height: d => d.r[3], fill: 'red' };
  let datas = [];
  const kidSpec = kid => (kid.sub.length
    ? { id: kid.id, type: 'group', clip: true, layout: Object.assign(contLay(kid.sub[0].lay), itemLay(kid.lay)), encode: { update: { x: kid.rects[0][0], y: kid.rects[0][1], width: kid.rects[0][2], height: kid.rects[0][3] } },
      marks: kid.sub[0].cells.map((c, i) => ({ id: kid.id + '_' + i, type: 'rect', layout: cellLay(c), encode: { update: { x: 0, y: 0, width: 2, height: 2, fill: 'blue' } } })) }
    : { id: kid.id, type: 'rect', layout: itemLay(kid.lay), from: { data: 'd' + kid.id }, key: 'k', encode: { update: rectEnc } });
  let cur = null, kids = [];
  const spec = s => {
    cur = s.g.length === 0 ? null : s.g; kids = cur ? cur.kids.map(x => x) : [];
    const o = { data: kids.map(kid => ({ id: 'd' + kid.id, values: rows(kid.rects) })), marks: [
      { id: 'vb', type: 'rect', encode: { update: { x: { callback: (d, e, p) => p.viewBox.x1, dependency: ['viewBox'] }, y: { callback: (d, e, p) => p.viewBox.y1, dependency: ['viewBox'] }, width: { signal: 'viewWidth' }, height: { signal: 'viewHeight' } } } }] };
    if (cur) o.marks.push({ id: 'g', type: 'group', clip: cur.clip, layout: contLay(cur.lay), encode: { update: { x: 0, y: 0, width: cur.size.length ? cur.size[0] : { signal: 'width' }, height: cur.size.length ? cur.size[1] : { signal: 'height' } } }, marks: kids.map(kidSpec) });
    if (s.w.length) o.width = s.w[0]; if (s.h.length) o.height = s.h[0];
    if (s.pad.length) o.padding = padOf(r, s.pad[0]);
    const th = theme(s.theme); if (th) o.theme = th;
    return o;
  };
  let first = true;
  const observe = () => {
    const stage = view.renderer.stage(), p = view.padding(), vb = view.getViewBox();
    const root = view.rootMark, rg = root && root.getGroupGraphicItem(), ra = rg && rg.attribute;
    const m = view.getMarkById('vb'), ma = m && m.elements && m.elements[0] && m.elements[0].getGraphicItem() && m.elements[0].getGraphicItem().attribute;
    return {
      w: L.FX(view.width()), h: L.FX(view.height()), pad: [p.top, p.right, p.bottom, p.left].map(x => L.FX(x)), canvas: [L.FX(stage.width), L.FX(stage.height)], resized,
      vb: vb ? box4(vb) : [], vs: [L.FX(view.viewWidth()), L.FX(view.viewHeight())], root: ra ? [L.FX(ra.width), L.FX(ra.height)] : [],
      mark: ma ? [ma.x, ma.y, ma.x + ma.width, ma.y + ma.height].map(x => L.FX(x)) : [],
      kids: kids.map(kid => {
        const k = view.getMarkById(kid.id), rp = k && k.relativePosition;
        return { id: k ? kid.id : '', box: k && k.layoutBounds ? [box4(k.layoutBounds)] : [], off: rp ? [L.FX(rp.left), L.FX(rp.top)] : [],
          cells: kid.sub.length ? kid.sub[0].cells.map((c, i) => { const q = view.getMarkById(kid.id + '_' + i); return q && q.layoutBounds ? [box4(q.layoutBounds)] : []; }) : [] };
      })
    };
  };
  for (const e of cmds) {
    const line = Object.assign({}, e);
    resized = [];
    try {
      if (e.op === 'w') view.width(e.v); else if (e.op === 'h') view.height(e.v);
      else if (e.op === 'vw') view.viewWidth(e.v); else if (e.op === 'vh') view.viewHeight(e.v);
      else if (e.op === 'pad') view.padding(padOf(r, e.p));
      else if (e.op === 'theme') view.theme(theme(e.theme) ?? V.ThemeManager.getDefaultTheme());
      else if (e.op === 'ctheme') view.setCurrentTheme(theme(e.theme) ?? V.ThemeManager.getDefaultTheme(), e.render);
      else if (e.op === 'resize') view.resize(e.w, e.h, e.render);
      else if (e.op === 'spec') { const s = spec(e.spec); if (first) view.parseSpec(s); else view.updateSpec(s); first = false; }
      else if (e.op === 'tag') view.updateLayoutTag();
      else if (e.op === 'cont') view.getMarkById('g').layout(contLay(e.lay));
      else if (e.op === 'item') { const kid = kids.find(x => x.id === e.id); view.getMarkById(e.id).layout(kid.sub.length ? Object.assign(contLay(kid.sub[0].lay), itemLay(e.lay)) : itemLay(e.lay)); }
      else if (e.op === 'rects') {
        const kid = kids.find(x => x.id === e.id);
        if (kid.sub.length) view.getMarkById(e.id).encode({ x: e.rects[0][0], y: e.rects[0][1], width: e.rects[0][2], height: e.rects[0][3] });
        else view.getDataById('d' + e.id).values(rows(e.rects));
      } else if (e.op === 'add') {
        kids = kids.concat([e.kid]);
        view.data(rows(e.kid.rects)).id('d' + e.kid.id);
        view.mark('rect', 'g').id(e.kid.id).join('d' + e.kid.id, 'k').layout(itemLay(e.kid.lay)).encode(rectEnc);
      } else if (e.op === 'rm') { kids = kids.filter(x => x.id !== e.id); view.removeGrammar(e.id); }
      else if (e.op === 'run') view.run({ reuse: e.reuse });
      line.obs = observe();
    } catch (x) { line.obs = { threw: String(x && x.stack).slice(0, 400) }; }
    L.emit(line);
    if (line.obs.threw) break;
  }
  L.dropView(view);
}
for (const b of L.behaviours()) exec(b[0].cfg, b.slice(1));
// a grid places columns by the lines of its rows and rows by the lines of its columns: pinned by the repository's own layout.test.ts
{
  const it = (rs, re, cs, ce) => ({ rs: [rs], re: [re], cs: [cs], ce: [ce] });
  const kid = (id, lay) => ({ id, lay, rects: [[0, 0, 10, 10]], sub: [] });
  const lay = { d: 'grid', rows: [{ t: 'n', v: 50 }, { t: 'n', v: 70 }], cols: [{ t: 'n', v: 100 }, { t: 'n', v: 60 }], rg: 0, cg: 0, upd: false };
  exec({ opts: { w: 200, h: 150, pad: [] } }, [{ op: 'spec', spec: { w: [], h: [], pad: [], theme: [], g: { clip: true, size: [], lay, kids: [kid('a', it(1, 2, 2, 3))] } } }, { op: 'run', reuse: false }], 'grid-axes');
}
const r = L.rng(L.seed + 4141);
const M = L.quick ? 1100 : 14000;
const gap = () => r.pick([0, 0, 4, 10]);
const pads = () => r.pick([() => [0, 0, 0, 0], () => { const v = r.int(0, 20); return [v, v, v, v]; }, () => [0, 0, 0, 0].map(() => r.int(0, 25)), () => [0, 0, 0, 0].map(() => r.pick([0, 0, r.int(1, 20)]))])();
const tracks = n => { const o = []; for (let i = 0; i < n; i++) o.push(r.pick([() => ({ t: 'n', v: r.int(10, 80) }), () => ({ t: 'p', v: r.pick([10, 25, 50, 7]) }), () => ({ t: 'auto', v: 0 })])()); return o; };
const gridLay = () => ({ d: 'grid', rows: tracks(r.int(1, 3)), cols: tracks(r.int(1, 3)), rg: gap(), cg: gap(), upd: false });
// cells on the diagonal only (see grid-axes): the same lines, each counted in a form of its own
const cell = l => {
  const nr = (l.rows.length || 1) + 1, nc = (l.cols.length || 1) + 1, n = Math.min(nr, nc);
  const a = r.int(1, n - 1), b = r.int(a + 1, n);
  const form = (i, cnt) => (i === cnt && r.bool(0.3) ? r.pick([-1, cnt + r.int(1, 3)]) : r.bool(0.3) ? i - cnt - 1 : i);
  const both = cnt => {
    const s = [form(a, cnt)], e = [form(b, cnt)];
    if (a === 1 && b === 2 && r.bool(0.3)) return [[], []];
    if (b === a + 1 && r.bool(0.4)) return r.bool() ? [s, []] : [[], e];
    return r.bool(0.15) ? [e, s] : [s, e];
  };
  const [rs, re] = both(nr), [cs, ce] = both(nc);
  return { rs, re, cs, ce };
};
const ext = () => r.pick([() => [], () => [], () => ['p', r.pick([10, 20, 50])], () => ['n', r.int(10, 60)]])();
const relLay = () => ({ d: 'rel', mw: ext(), mh: ext(), upd: r.bool() });
const relItem = () => { const pos = r.pick(['top', 'bottom', 'left', 'right', 'top', 'left', 'outside', 'content', 'auto']);
  return { pos, pad: r.bool() ? [0, 0, 0, 0] : pads(), align: r.pick(['', '', 'left', 'center', 'right', 'top', 'middle', 'bottom']), order: r.bool(0.3) ? [r.int(0, 4)] : [] }; };
const rect = () => [2 * r.int(-15, 60), 2 * r.int(-15, 40), 2 * r.int(2, 40), 2 * r.int(2, 30)];
const rects = () => { const n = r.pick([1, 1, 1, 2, 3, 0]); return Array.from({ length: n }, rect); };
const inner = () => { const lay = gridLay(); const q = Object.assign({}, lay); delete q.upd; return [{ lay: q, cells: Array.from({ length: r.int(1, 3) }, () => cell(lay)) }]; };
let ids = 0;
const mkKid = (lay, sub) => { const s = sub && r.bool(0.15) ? inner() : []; return { id: 'k' + ids++, lay: lay.d === 'grid' ? cell(lay) : relItem(), rects: s.length ? [rect()] : rects(), sub: s }; };
const mkSpec = () => {
  const lay = r.bool(0.3) ? gridLay() : relLay();
  if (lay.d === 'grid' && r.bool(0.2)) lay[r.pick(['rows', 'cols'])] = [];
  const g = r.bool(0.1) ? [] : { clip: r.bool(0.7), size: r.bool(0.7) ? [] : [2 * r.int(60, 200), 2 * r.int(60, 150)], lay, kids: Array.from({ length: r.int(0, 5) }, () => mkKid(lay, true)) };
  return { w: r.bool(0.4) ? [2 * r.int(100, 250)] : [], h: r.bool(0.4) ? [2 * r.int(80, 200)] : [], pad: r.bool(0.4) ? [pads()] : [], theme: mkTheme(), g };
};
const mkTheme = () => r.pick([() => [], () => [], () => [[]], () => [[pads()]]])();
for (let i = 0; i < M; i++) {
  ids = 0;
  const cfg = { opts: { w: 2 * r.int(100, 250), h: 2 * r.int(80, 200), pad: r.bool(0.5) ? [pads()] : [] }, rnd: r.int(1, 1e6) };
  let s = mkSpec(), pendW = false;
  const cmds = [{ op: 'spec', spec: JSON.parse(JSON.stringify(s)) }];
  if (r.bool(0.9)) cmds.push({ op: 'run', reuse: false });
  let kids = s.g.kids || [], lay = s.g.lay;
  const ranKids = new Set(kids.map(x => x.id));
  const push = e => { cmds.push(e); if (e.op === 'run') pendW = false; };
  for (let q = r.int(1, 8); q > 0; q--) {
    const e = r.pick([
      () => { pendW = true; return { op: r.pick(['w', 'h', 'vw', 'vh']), v: 2 * r.int(80, 250) }; },
      () => ({ op: 'pad', p: pads() }), () => ({ op: 'theme', theme: mkTheme() }),
      () => ({ op: 'ctheme', theme: mkTheme(), render: r.bool(0.7) }),
      () => ({ op: 'resize', w: 2 * r.int(100, 250) + 1, h: 2 * r.int(80, 200) + 1, render: r.bool(0.8) }),
      () => ({ op: 'tag' }), () => ({ op: 'tag' }), () => ({ op: 'run', reuse: r.bool() }), () => ({ op: 'run', reuse: r.bool() }),
      () => { s = mkSpec(); pendW = true; kids = s.g.kids || []; lay = s.g.lay; return { op: 'spec', spec: JSON.parse(JSON.stringify(s)) }; },
      () => { if (!lay) return null; if (lay.d === 'grid') { const rows = lay.rows.length, cols = lay.cols.length; lay = { d: 'grid', rows: tracks(rows), cols: tracks(cols), rg: gap(), cg: gap(), upd: false }; } else lay = relLay(); return { op: 'cont', lay }; },
      () => { if (!kids.length) return null; const k = r.pick(kids); return { op: 'item', id: k.id, lay: lay.d === 'grid' ? cell(lay) : relItem() }; },
      () => { if (!kids.length) return null; const k = r.pick(kids); const rs = k.sub.length ? [rect()] : rects(); while (rs.length < k.rects.length) rs.push(rect()); k.rects = rs; return { op: 'rects', id: k.id, rects: rs }; },
      () => { if (!lay) return null; const k = mkKid(lay, false); kids = kids.concat([k]); return { op: 'add', kid: k }; },
      () => { if (!kids.length || !s.g.clip) return null; const k = r.pick(kids); kids = kids.filter(x => x !== k); return { op: 'rm', id: k.id }; }
    ])();
    if (!e) continue;
    push(e);
    if (['cont', 'item', 'rects', 'add', 'rm'].includes(e.op) && r.bool(0.6)) { push({ op: 'tag' }); push({ op: 'run', reuse: r.bool() }); }
  }
  cmds.push({ op: 'run', reuse: false });
  exec(cfg, cmds);
}
L.done();
