// View navigation: gestures on the view; windows of scales, rows, components and what listeners hear after each (I05).
'use strict';
const L = require('../lib.cjs');
const { V } = L;
const U = 1e6, KEYS = Array.from({ length: 10 }, (_, i) => i * 100000);
const win = r => (r ? [Math.round(r[0] * U), Math.round(r[1] * U)] : [0, U]);
const clip = v => Math.max(-2e9, Math.min(2e9, Math.round(v)));
function exec(beh) {
  const cfg = beh[0].cfg;
  L.emit({ op: 'reset', cfg });
  const view = L.mkView({ width: 300, height: 240, padding: 0 });
  try {
    const data = view.data(cfg.rows.map(x => Object.assign({}, x))).id('D');
    const dim = {};
    for (const d of ['x', 'y']) {
      const c = cfg[d], q = dim[d] = { c, F: 'r' + d };
      if (c.mode === 'off') continue;
      if (c.mode === 'scale' || c.mode === 'factor' || c.mode === 'data') {
        q.sc = view.scale(c.sc).domain(c.sc === 'band' ? KEYS : [0, U]).range(c.flip ? [c.size, 0] : [0, c.size]).id('s' + d);
        if (c.mode === 'factor') q.sc.setRangeFactor([c.lo / U, c.hi / U]);
      } else if (c.mode === 'comp') q.comp = view.datazoom(view.rootMark).encode({ x: 0, y: 100, size: { width: 200, height: 20 }, orient: 'bottom', start: c.lo / U, end: c.hi / U }).id('c' + d);
      else if (c.mode === 'bar') q.comp = view.scrollbar(view.rootMark).encode({ x: d === 'x' ? 0 : 250, y: d === 'x' ? 130 : 0, direction: d === 'x' ? 'horizontal' : 'vertical', width: d === 'x' ? c.size : 10, height: d === 'x' ? 10 : c.size, range: [c.lo / U, c.hi / U] }).id('c' + d);
      else if (c.mode === 'fn') q.cur = [c.lo / U, c.hi / U];
    }
    const enc = { size: 6, fill: 'red' };
    for (const d of ['x', 'y']) enc[d] = dim[d].sc ? { scale: 's' + d, field: 'r' + d } : 1;
    const m = view.mark('symbol', view.rootMark).join('D', 'k').encode(enc).id('S');
    view.run();
    const stage = view.renderer.stage();
    const told = [];
    for (const ty of ['start', 'update', 'end', 'reset']) view.addEventListener('view-' + cfg.kind + ':' + ty, p => {
      const t = { ty, x: [], y: [] }, r = p.viewRange || {};
      for (const d of ['x', 'y']) if (r[d]) { t[d] = win(r[d]); if (dim[d].cur) dim[d].cur = r[d].slice(); }
      told.push(t);
    });
    let it = null;
    const bind = () => {
      const o = { throttle: 0 };
      const ref = g => (cfg.api === 'id' ? g.id() : g);
      for (const d of ['x', 'y']) {
        const D = d.toUpperCase(), c = cfg[d], q = dim[d];
        if (c.mode === 'off') { o['enable' + D] = false; continue; }
        if (q.sc) o['scale' + D] = ref(q.sc);
        if (c.mode === 'data') o['dataTarget' + D] = { data: ref(data), filter: cfg.api === 'id' ? 'r' + d : (r, f) => r['r' + d] / U >= f[0] && r['r' + d] / U <= f[1] };
        if (q.comp) o['linkedComponent' + D] = ref(q.comp);
        if (c.mode === 'range') o['range' + D] = [c.lo / U, c.hi / U];
        if (c.mode === 'fn') o['range' + D] = () => q.cur;
      }
      const rate = cfg.zoom.rate[0] / cfg.zoom.rate[1];
      if (cfg.kind === 'zoom') { if (!cfg.zoom.rt) o.realtime = false; o.rate = rate; }
      else if (cfg.kind === 'roam') {
        o.zoom = { enable: cfg.zoom.on, realtime: cfg.zoom.rt, rate };
        o.drag = { enable: cfg.drag.on, realtime: cfg.drag.rt, reversed: cfg.drag.rev };
        o.scroll = { enable: cfg.scroll.on, realtime: cfg.scroll.rt, reversed: cfg.scroll.rev };
      } else { const p = cfg[cfg.kind]; if (!p.rt) o.realtime = false; if (p.rev) o.reversed = true; }
      it = view.interaction('view-' + cfg.kind, o);
    };
    const fire = (ty, x, y, more) => {
      L.clock.now += 20;
      const ev = new V.CustomEvent(ty); ev.manager = stage.eventSystem.manager; ev.canvas = { x, y }; ev.preventDefault = () => {};
      Object.assign(ev, more);
      Object.defineProperty(ev, 'clientX', { value: x }); Object.defineProperty(ev, 'clientY', { value: y });
      stage.dispatchEvent(ev);
    };
    bind();
    for (const b of beh.slice(1)) {
      told.length = 0;
      if (b.op === 'wheel') fire('wheel', 60, 60, b.f.length ? { ctrlKey: true, deltaX: 0, deltaY: -Math.log(b.f[0] / b.f[1]) / Math.log(1.0005), deltaMode: 0 } : { ctrlKey: false, deltaX: b.dx, deltaY: b.dy, deltaMode: 0 });
      else if (b.op === 'down' || b.op === 'move' || b.op === 'up') fire('pointer' + b.op, b.x, b.y, { pointerId: b.p });
      else if (b.op === 'dbl') fire('dblclick', 60, 60, {});
      else if (b.op === 'unbind') { view.removeInteraction(it); view.run(); }
      else if (b.op === 'bind') bind();
      else if (b.op === 'rows') { data.values(b.rows.map(x => Object.assign({}, x))); view.run(); }
      const o = Object.assign({}, b, { win: { x: [], y: [] }, pos: { x: [], y: [] }, seen: m.elements.map(e => e.getDatum().k), told: told.slice() });
      for (const d of ['x', 'y']) {
        const q = dim[d], c = q.c;
        if (c.mode === 'scale' || c.mode === 'factor') {
          o.win[d] = win(q.sc.getScale().rangeFactor());
          o.pos[d] = m.elements.map(e => { const v = e.getGraphicItem().attribute[d]; return clip(10 * (c.flip ? c.size - v - (c.sc === 'band' ? q.sc.getScale().bandwidth() : 0) : v)); });
        } else if (c.mode === 'comp') { const s = q.comp.getStartEndValue(); o.win[d] = win([s.start, s.end]); }
        else if (c.mode === 'bar') o.win[d] = win(q.comp.getScrollRange());
        else if (q.cur) o.win[d] = win(q.cur);
      }
      L.emit(o);
    }
  } catch (err) { L.emit({ op: 'threw', msg: String(err && err.stack).slice(0, 300) }); }
  finally { L.dropView(view); }
}
for (const b of L.behaviours()) exec(b);
L.done();
