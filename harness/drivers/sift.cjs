// Filter interactions of legends, sliders, data zooms, scrollbars, players, drill-downs and roll-ups.
const L = require('../lib.cjs');
const V = L.V;
const TYPE = { legend: 'legend-filter', color: 'legend-filter', slider: 'slider-filter', slider2: 'slider-filter', zoom: 'datazoom-filter', scroll: 'scrollbar-filter', player: 'player-filter', drill: 'drill-down', up: 'roll-up' };
const NOROW = { k: '', v: 0, c: '' };
const pool = new Map();
const row = r => { const key = r.k + '|' + r.v + '|' + r.c; if (!pool.has(key)) pool.set(key, Object.assign({}, r)); return pool.get(key); };
function exec(cfg, cmds, rnd) {
  L.mark({ cfg, cmds });
  L.emit({ op: 'reset', cfg });
  pool.clear();
  const rows = v => v.map(row);
  const view = L.mkView({});
  const data = { D: view.data(rows(cfg.d.D)).id('D') };
  data.E = cfg.linked ? view.data().source(rnd.bool() ? 'D' : data.D).id('E') : view.data(rows(cfg.d.E)).id('E');
  const P = view.data(cfg.ps.map(rows)).id('P');
  const Z = view.data([{ k: 'z', v: 1, c: 'x' }]).id('Z');
  const ranges = [[0, 64], [10, 138], [128, 0], [70, 6]];
  const X = view.scale('linear').id('X').domain([0, cfg.dx]).range(rnd.pick(ranges)), Y = view.scale('linear').id('Y').domain([0, cfg.dx]).range(rnd.pick(ranges));
  const ord = view.scale('ordinal').id('O').domain(['x', 'y', 'z']).range(['#ff0000', '#00ff00', '#0000ff']);
  const lin = view.scale('linear').id('C').domain([0, 10]).range(['#000000', '#ffffff']);
  const M = { D: view.mark('symbol', view.rootMark).id('MD').join('D', 'k').encode({ x: d => d.v * 5, y: 5, size: 5, fill: '#ff0000' }), E: view.mark('rect', view.rootMark).id('ME').join('E', 'k').encode({ x: d => d.v * 5, y: 50, width: 4, height: 4, fill: '#ff0000' }) };
  const orient = rnd.bool() ? 'bottom' : 'left';
  const box = view.mark('group', view.rootMark).id('box').encode({ x: 0, y: 0, width: 100, height: 80 });
  const comp = (type, id) => view.mark('component', type === 'scrollbar' ? box : view.rootMark, { componentType: type }).id(id);
  const C = {
    legend: comp('legend', 'legend').scale(ord).encode({ layout: 'horizontal' }),
    color: comp('legend', 'color').scale(lin).encode({ layout: 'horizontal', railWidth: 80, railHeight: 8 }),
    slider: comp('slider', 'slider').min(0).max(10).encode({ layout: 'horizontal', railWidth: 100, railHeight: 10, range: true }),
    slider2: comp('slider', 'slider2').min(0).max(10).encode({ layout: 'vertical', railWidth: 10, railHeight: 100, range: true }),
    zoom: comp('datazoom', 'zoom').preview(Z, { scale: 'X', field: 'v' }, { scale: 'Y', field: 'v' }).encode({ position: { x: 0, y: 0 }, start: 0, end: 1, size: { width: 100, height: 20 }, orient }),
    scroll: comp('scrollbar', 'scroll').scale(X).encode({ range: [0, 1] }),
    player: comp('player', 'player').source('P').encode({ size: { width: 100, height: 20 } })
  };
  const bound = [];
  const add = e => {
    const target = { data: rnd.bool() ? e.on : data[e.on] };
    const o = { id: e.id, target };
    const src = C[e.comp] ? C[e.comp] : M.D;
    const sel = () => rnd.pick([src, '#' + src.id(), [src]]);
    if (e.comp === 'drill') { o.selector = sel(); target.transform = (d, fv) => (fv && fv.length ? (e.mode === 'rows' ? fv : d.filter(r => r.c === fv[0].c)) : d); if (e.mode === 'rows') delete target.transform; }
    else if (e.comp === 'up') { o.source = sel(); o.triggerOff = e.off ? rnd.pick(['view:dblclick', 'dblclick']) : rnd.pick(['empty', 'click', 'view:click', undefined]); if (!o.triggerOff) delete o.triggerOff; target.transform = (d, r) => d.filter(x => x.c === r.c); }
    else {
      o.source = sel();
      if (e.comp === 'player') { if (e.mode === 'fn') target.transform = (d, fv) => d.filter(r => r.v <= 4 * fv.index + 2); }
      else {
        const fns = {
          legend: (d, s) => s.includes(d.c), color: (d, f) => d.v >= f.start && d.v <= f.end, slider: (d, f) => d.v >= f.start && d.v <= f.end, slider2: (d, f) => d.v >= f.start && d.v <= f.end,
          zoom: (d, f) => (d.v * st.zdx) / st.dx >= f.start && (d.v * st.zdx) / st.dx <= f.end, scroll: (d, f) => d.v / st.dx >= f.startRatio && d.v / st.dx <= f.endRatio
        };
        const field = e.comp === 'legend' ? 'c' : 'v';
        if (e.mode !== 'first') target.filter = e.mode === 'fn' || (e.mode === 'both' && rnd.bool()) ? fns[e.comp] : field;
        if (e.mode === 'first' || e.mode === 'both') target.transform = d => d.slice(0, 2);
      }
    }
    bound.push({ id: e.id, comp: e.comp, i: view.interaction(TYPE[e.comp], o) });
  };
  const st = { dx: cfg.dx };
  const dispatch = (g, type, detail) => { const ev = new V.CustomEvent(type, detail); ev.manager = view.renderer.stage().eventSystem.manager; g.dispatchEvent(ev); };
  const fire = e => {
    const g = C[e.comp] && C[e.comp].elements[0].getGraphicItem();
    if (e.comp === 'legend') dispatch(g, 'legendItemClick', { currentSelected: e.set.slice() });
    else if (e.comp === 'color' || e.comp === 'slider' || e.comp === 'slider2') dispatch(g, 'change', { value: [e.lo, e.hi] });
    else if (e.comp === 'zoom') { st.zdx = st.dx; dispatch(g, 'change', { start: e.lo / 8, end: e.hi / 8 }); }
    else if (e.comp === 'scroll') dispatch(g, rnd.pick(['scrollDrag', 'scrollUp']), { value: [e.lo / 8, e.hi / 8] });
    else if (e.comp === 'player') dispatch(g, 'change', { index: e.lo, value: P.getValue()[e.lo] });
    else if (e.ev === 'off') dispatch(view.renderer.stage(), 'dblclick', {});
    else { const el = M.D.elements.find(x => x.getDatum().k === e.row.k); if (!el) throw new Error('no element ' + e.row.k); dispatch(el.getGraphicItem(), 'click', {}); }
  };
  const observe = line => {
    ['D', 'E'].forEach(k => {
      const shown = M[k].elements.filter(el => el.diffState !== 'exit').map(el => el.getDatum().k);
      const vals = data[k].getValue().map(r => r.k);
      line[k] = JSON.stringify(vals) === JSON.stringify(shown) ? vals : ['data', ...vals, 'shown', ...shown];
    });
  };
  for (const e of cmds) {
    const line = Object.assign({}, e);
    try {
      if (e.op === 'add') add(e);
      else if (e.op === 'rem') {
        if (e.how === 'all') { if (rnd.bool()) view.removeAllInteractions(); else bound.slice().forEach(b => view.removeInteraction(b.i)); bound.length = 0; }
        else {
          if (e.how === 'type') view.removeInteraction(e.type);
          else { const b = bound.find(x => x.id === e.id); if (rnd.bool()) view.removeInteraction(TYPE[b.comp], e.id); else view.removeInteraction(b.i); }
          for (let i = bound.length - 1; i >= 0; i--) if (e.how === 'type' ? TYPE[bound[i].comp] === e.type : bound[i].id === e.id) bound.splice(i, 1);
        }
      } else if (e.op === 'data') { if (e.k === 'E' && cfg.linked) continue; data[e.k].values(rows(e.v)); }
      else if (e.op === 'scale') { st.dx = e.v; X.domain([0, e.v]).range(rnd.pick(ranges)); Y.domain([0, e.v]).range(rnd.pick(ranges)); view.run(); }
      else if (e.op === 'fire') { fire(e); observe(line); }
      else if (e.op === 'run') { view.run(); observe(line); }
    } catch (err) { L.emit({ op: 'threw', at: e.op, msg: String(err && err.stack).slice(0, 400) }); L.dropView(view); return; }
    L.emit(line);
  }
  L.dropView(view);
}
// every event is preceded by an evaluation when something is pending
const settle = cmds => { const out = [{ op: 'run' }]; let dirty = false; cmds.forEach(e => { if (e.op === 'fire' && dirty) out.push({ op: 'run' }); dirty = e.op === 'data' || e.op === 'scale' || e.op === 'rem' || (dirty && e.op === 'add'); if (e.op !== 'run' || out[out.length - 1].op !== 'run') out.push(e); }); out.push({ op: 'run' }); return out; };
let i = 0;
for (const b of L.behaviours()) exec(b[0].cfg, settle(b.slice(1)), L.rng(L.seed * 7907 + ++i));
const Nn = L.quick ? 130 : 2500;
for (let j = 0; j < Nn; j++) {
  const r = L.rng(L.seed * 104729 + j + 17);
  const ab = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'];
  const rowsOf = (n0 = 3, n1 = 8) => r.shuffle(ab).slice(0, r.int(n0, n1)).map(k => ({ k, v: r.int(0, 9), c: r.pick(['x', 'y', 'z']) }));
  const cfg = { d: { D: rowsOf(), E: rowsOf() }, linked: r.bool(0.6), dx: r.pick([8, 16]), ps: [rowsOf(1, 4), rowsOf(1, 4), rowsOf(0, 4)] };
  const still = r.bool(0.25), pointer = r.pick(['drill', 'up']);
  // the driver tracks the rows only to click on one that exists: a small re-statement of the composition
  const fs = []; const d = JSON.parse(JSON.stringify(cfg.d)); let dx = cfg.dx;
  const RANK = { player: 1, up: 2, drill: 3, slider: 4, slider2: 4, zoom: 5, legend: 6, color: 6, scroll: 7 };
  const pass = (f, x) => { const q = f.val; return f.comp === 'legend' ? q.set.includes(x.c) : f.comp === 'zoom' || f.comp === 'scroll' ? q.lo * dx <= 8 * x.v && 8 * x.v <= q.hi * dx : q.lo <= x.v && x.v <= q.hi; };
  const shown = () => fs.filter(f => f.on === 'D' && f.val).sort((a, b) => RANK[a.comp] - RANK[b.comp]).reduce((rows, f) => f.comp === 'player' ? (f.mode === 'rows' ? cfg.ps[f.val.lo] : rows.filter(x => x.v <= 4 * f.val.lo + 2)) : f.comp === 'drill' || f.comp === 'up' ? (f.mode === 'rows' ? [f.val.row] : rows.filter(x => x.c === f.val.row.c)) : (k => (f.mode === 'first' || f.mode === 'both' ? k.slice(0, 2) : k))(f.mode === 'first' ? rows : rows.filter(x => pass(f, x))), d.D);
  const cmds = [];
  const n = r.int(5, L.quick ? 14 : 24);
  let ids = 0;
  for (let q = 0; q < n; q++) {
    const o = r.int(0, 9);
    if (o <= 1 && fs.length < 4) {
      const c = r.pick(['legend', 'color', 'slider', 'slider2', 'zoom', 'scroll', 'player', pointer, pointer]);
      if (c === pointer && fs.some(f => f.comp === c)) continue;
      const e = { op: 'add', id: 'f' + ++ids, comp: c, on: r.pick(['D', 'E']), mode: c === 'player' ? r.pick(['rows', 'fn']) : c === 'drill' ? (still ? r.pick(['rows', 'fn']) : 'fn') : c === 'up' ? 'fn' : r.pick(['field', 'field', 'fn', 'first', 'both']), off: c === 'up' && r.bool() };
      cmds.push(e); fs.push(Object.assign({ val: null }, e));
    } else if (o === 2 && fs.length && r.bool(0.6)) {
      const f = r.pick(fs); const how = r.pick(['id', 'type', 'id', 'type', 'all']);
      cmds.push({ op: 'rem', how, id: how === 'id' ? f.id : '', type: how === 'type' ? TYPE[f.comp] : '' });
      for (let z = fs.length - 1; z >= 0; z--) if (how === 'all' || (how === 'id' ? fs[z].id === f.id : TYPE[fs[z].comp] === TYPE[f.comp])) fs.splice(z, 1);
    } else if (o === 3 && !still) { const k = cfg.linked ? 'D' : r.pick(['D', 'E']); const v = rowsOf(); d[k] = v; cmds.push({ op: 'data', k, v }); }
    else if (o === 4 && !still && r.bool(0.5)) { dx = r.pick([8, 16]); const a = rowsOf(), b = rowsOf(); d.D = a; d.E = b; cmds.push({ op: 'scale', v: dx }, { op: 'data', k: 'D', v: a }); if (!cfg.linked) cmds.push({ op: 'data', k: 'E', v: b }); }
    else if (o === 5) cmds.push({ op: 'run' });
    else {
      const c = fs.length && r.bool(0.85) ? r.pick(fs).comp : r.pick(['legend', 'slider', 'color', 'zoom', 'player']);
      const e = { op: 'fire', comp: c, lo: 0, hi: 0, set: [], row: NOROW, ev: 'on' };
      if (c === 'legend') e.set = r.subset(['x', 'y', 'z']);
      else if (c === 'color' || c === 'slider' || c === 'slider2') { e.lo = r.int(0, 6); e.hi = r.int(e.lo, 9); }
      else if (c === 'zoom' || c === 'scroll') { e.lo = r.int(0, 5); e.hi = r.int(e.lo, 8); }
      else if (c === 'player') e.lo = r.int(0, 2);
      else if (c === 'up' && r.bool(0.3)) e.ev = 'off';
      else { const s = shown(); if (!s.length) continue; const f = fs.find(x => x.comp === c); e.row = f.val && r.bool(0.4) && s.some(x => x.k === f.val.row.k && x.v === f.val.row.v && x.c === f.val.row.c) ? f.val.row : r.pick(s); }
      fs.forEach(f => { if (f.comp === c) { const same = f.val && f.val.row.k === e.row.k && f.val.row.v === e.row.v && f.val.row.c === e.row.c; f.val = c === 'up' && ((f.off && e.ev === 'off') || (!f.off && e.ev === 'on' && same)) ? null : e.ev === 'off' ? f.val : e; } });
      cmds.push(e);
    }
  }
  exec(cfg, settle(cmds), r);
}
L.done();
