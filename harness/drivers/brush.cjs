// Brush interactions: pointers drag masks over two marks; states, filtered rows and events after every step (I04).
'use strict';
const L = require('../lib.cjs');
const { V } = L;
const STATES = ['active', 'highlight', 'blur', 'sel', 'hi', 'lo'];
const TYPES = ['drawStart', 'drawing', 'drawEnd', 'moveStart', 'moving', 'moveEnd', 'brushClear'];
function exec(beh) {
  const cfg = beh[0].cfg;
  L.emit({ op: 'reset', cfg });
  const view = L.mkView({ width: cfg.vb[2], height: cfg.vb[3], padding: 0 });
  const live = [];
  try {
    view.signal(0).id('pulse');
    const g = view.group(view.rootMark).encode({ x: cfg.g[0], y: cfg.g[1], width: 10, height: 10 }).id('g');
    const data = view.data(cfg.rows.map(x => Object.assign({}, x))).id('D');
    const own = view.data(cfg.erows.map(x => Object.assign({}, x))).id('E');
    const st = m => { STATES.forEach((n, i) => m.encodeState(n, { lineWidth: i + 2 })); return m; };
    const S = st(view.mark('symbol', g).join('D', 'k').encode({ x: { field: 'x' }, y: { field: 'y' }, size: 6, fill: 'red', lineWidth: 1 }).id('S'));
    const enc = cfg.rx === 'size' ? { x: { field: 'x' }, y: { field: 'y' }, width: { field: 'w' }, height: { field: 'h' } }
      : cfg.rx === 'ends' ? { x: { field: 'x' }, y: { field: 'y' }, x1: r => r.x + r.w, y1: r => r.y + r.h }
      : { x1: { field: 'x' }, y1: { field: 'y' }, x: r => r.x + r.w, y: r => r.y + r.h };
    const R = st(view.mark('rect', g).join('D', 'k').encode(Object.assign(enc, { fill: 'blue', lineWidth: 1 })).id('R'));
    const T = view.mark('symbol', view.rootMark).join('E', 'k').encode({ x: 1, y: 1, size: 2 }).id('T');
    const pulse = view.mark('rect', view.rootMark).encode({ x: { signal: 'pulse' } });
    const keys = els => els.map(e => [e.mark.id(), e.key]);
    const see = () => {
      const has = [];
      for (const m of [S, R]) for (const e of m.elements) for (const n of e.states) has.push([m.id(), e.key, n]);
      return { has, shown: T.elements.map(e => e.key), n: view.renderer.stage().defaultLayer.children.filter(c => c.name === 'brush').length };
    };
    view.run();
    const stage = view.renderer.stage();
    const render = () => { const p = view.getSignalById('pulse'); p.value((p.output() || 0) + 1); view.run(); };
    const fire = (ty, [x, y]) => {
      L.clock.now += 20;
      const ev = new V.CustomEvent(ty); ev.manager = stage.eventSystem.manager; ev.canvas = { x, y }; ev.preventDefault = () => {};
      Object.defineProperty(ev, 'clientX', { value: x }); Object.defineProperty(ev, 'clientY', { value: y });
      stage.dispatchEvent(ev);
    };
    const bind = o => {
      const u = { told: null, act: null };
      const told = n => p => { u.cb = n; u.act = keys(p.activeElements || []); };
      const q = { selector: o.by === 'mark' ? o.sel.map(x => view.getMarkById(x)) : o.sel.map(x => '#' + x), brushType: o.type, delayTime: 0, brushMoved: o.moved, removeOnClick: o.roc, sizeThreshold: o.thr, onStart: told('start'), onUpdate: told('update'), onEnd: told('end'), onReset: told('reset') };
      if (o.ir.length) q.interactiveRange = { minX: o.ir[0], minY: o.ir[1], maxX: o.ir[2], maxY: o.ir[3] };
      if (o.xr.length) q.xRange = o.xr; if (o.yr.length) q.yRange = o.yr;
      if (o.kind === 'brush-active' && o.a !== 'active') q.state = o.a;
      if (o.kind === 'brush-highlight') { if (o.a !== 'highlight') q.highlightState = o.a; if (o.b !== 'blur') q.blurState = o.b; }
      if (o.kind === 'brush-filter') { q.target = { data: o.by === 'mark' ? own : 'E' }; if (o.fn) q.target.transform = (rows, f) => rows.filter(r => f.some(d => d.c === r.c)); }
      const it = view.interaction(o.kind, q);
      live.push({ o, it, u });
      render();
      const comp = it._brushComp;
      u.on = n => p => { u.ev = n; if (p.activeElements) u.act2 = JSON.stringify(keys(p.activeElements)); };
      for (const n of ['start', 'update', 'end', 'reset']) view.addEventListener(o.kind + ':' + n, u['f' + n] = u.on(n));
      for (const ty of TYPES) comp.addEventListener(ty, e => {
        const mask = e.detail.operateMask, raw = mask ? mask.attribute.points.map(p => [p.x, p.y]) : [];
        const dx = mask ? mask.attribute.dx || 0 : 0, dy = mask ? mask.attribute.dy || 0 : 0;
        L.emit(Object.assign({ op: 'brush', name: o.name, ty, raw, pts: raw.map(p => [Math.round(p[0] + dx), Math.round(p[1] + dy)]), told: [u.cb || '', u.ev || ''], act: u.act2 === JSON.stringify(u.act) ? u.act : [['?', '?']] }, see()));
        u.cb = u.ev = u.act = u.act2 = null;
      });
    };
    for (const b of beh.slice(1)) {
      if (b.op === 'bind') bind(b.o);
      else if (b.op === 'unbind') { const i = live.findIndex(x => x.o.name === b.v); if (i < 0) continue; const [x] = live.splice(i, 1); for (const n of ['start', 'update', 'end', 'reset']) view.removeEventListener(x.o.kind + ':' + n, x.u['f' + n]); view.removeInteraction(x.it); render(); }
      else if (b.op === 'rows') { data.values(b.rows.map(x => Object.assign({}, x))); view.run(); }
      else if (b.op === 'erows') { own.values(b.erows.map(x => Object.assign({}, x))); view.run(); }
      else if (b.op === 'drag') {
        fire('pointerdown', b.path[0]);
        for (const p of b.path.slice(1)) fire('pointermove', p);
        fire(b.end, b.path[b.path.length - 1]);
        if (b.end === 'pointerupoutside') fire('pointerup', b.path[b.path.length - 1]); // ends the gesture
        L.emit(Object.assign({ op: 'look' }, see()));
        continue;
      }
      L.emit(Object.assign({}, b, see()));
    }
  } catch (err) { L.emit({ op: 'threw', msg: String(err && err.stack).slice(0, 300) }); }
  finally { L.dropView(view); }
}
for (const b of L.behaviours()) exec(b);
// ---- random behaviours
const N = L.quick ? 200 : 2500;
for (let t = 0; t < N; t++) {
  const r = L.rng(L.seed * 100003 + t);
  const W = r.int(12, 30) * 10, H = r.int(10, 24) * 10, g = [r.int(0, 3) * 10, r.int(0, 3) * 10];
  const keys = 'abcdefghijkl'.split('');
  const rows = n => keys.slice().sort(() => r() - 0.5).slice(0, n).map(k => ({ k, c: r.pick(['p', 'q', 'r', 's']), x: r.int(0, W - 20), y: r.int(0, H - 20), w: r.int(5, 40), h: r.int(5, 40) }));
  const erows = () => keys.slice(0, r.int(2, 8)).map(k => ({ k: 'e' + k, c: r.pick(['p', 'q', 'r', 's']) }));
  const cfg = { vb: [0, 0, W, H], g, rx: r.pick(['size', 'ends', 'ends', 'flip']), rows: rows(r.int(2, 9)), erows: erows() };
  const beh = [{ op: 'reset', cfg }];
  const bound = [];
  let nn = 0;
  const bind = () => {
    const kind = r.pick(['brush-active', 'brush-highlight', 'brush-filter']), kinds = bound.map(o => o.kind);
    if (kinds.includes(kind)) return;
    const type = r.pick(['rect', 'rect', 'x', 'y', 'polygon', 'polygon']);
    const some = p => r.bool(p);
    const o = { name: 'n' + nn++, kind, type, by: r.pick(['id', 'mark']), sel: r.pick([['S'], ['R'], ['S', 'R'], ['R', 'S']]), a: '', b: '', moved: some(0.75), roc: some(0.8), thr: r.pick([5, 5, 12]), ir: some(0.25) ? [20, 10, W - 10, H - 20] : [], xr: some(0.3) ? [10, W - 40] : [], yr: some(0.3) ? [20, H - 30] : [], fn: kind === 'brush-filter' && some(0.5) };
    if (kind === 'brush-active') o.a = r.pick(['active', 'sel']);
    if (kind === 'brush-highlight') { o.a = r.pick(['highlight', 'hi']); o.b = r.pick(['blur', 'lo']); }
    bound.push(o); beh.push({ op: 'bind', o });
  };
  bind(); if (r.bool(0.5)) bind();
  const pt = () => [r.int(0, W), r.int(0, H)];
  const n = r.int(4, L.quick ? 9 : 16);
  let cur = cfg.rows, last = null;
  for (let i = 0; i < n; i++) {
    const p = r();
    if (p < 0.08) bind();
    else if (p < 0.14 && bound.length) beh.push({ op: 'unbind', v: bound.splice(r.int(0, bound.length - 1), 1)[0].name });
    else if (p < 0.26) { cur = r.bool() ? rows(r.int(0, 9)) : cur.map(q => (r.bool() ? q : Object.assign({}, q, { x: r.int(0, W - 20), c: r.pick(['p', 'q']) }))); beh.push({ op: 'rows', rows: cur }); }
    else if (p < 0.32) beh.push({ op: 'erows', erows: erows() });
    else {
      const a = r.bool(0.3) && last ? last : pt(), b = pt();
      const path = r.bool(0.12) ? [a, a] : r.bool(0.2) ? [a, [a[0] + 2, a[1] + 2], [a[0] + 3, a[1] + 1]] : [a, pt(), b].concat(r.bool(0.5) ? [pt()] : []);
      last = [Math.round((path[0][0] + b[0]) / 2), Math.round((path[0][1] + b[1]) / 2)];
      beh.push({ op: 'drag', path, end: r.pick(['pointerup', 'pointerup', 'pointerup', 'pointerleave', 'pointerupoutside']) });
    }
  }
  exec(beh);
}
L.done();
