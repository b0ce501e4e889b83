// Fish-eyes: the pointer starts, moves and ends them; what every row's symbol is drawn at and the setting its scales tell.
const L = require('../lib.cjs');
const { V } = L;
const rv = L.rng(L.seed + 13);
const K = 1000, num = v => L.FX(v, K), has = v => v !== L.NAI, off = v => (v === undefined || v === null ? L.NAI : num(v));
function exec(beh) {
  L.mark(beh);
  const c = beh[0].cfg;
  const view = L.mkView({ width: 300, height: 200, padding: 0 });
  L.emit({ op: 'reset', cfg: c });
  try {
    view.parseSpec({
      data: [{ id: 'd', values: c.rows.map(r => Object.assign({}, r)) }],
      scales: [{ id: 'sx', type: 'linear', domain: [0, 100], range: [0, 200] }, { id: 'sy', type: 'linear', domain: [0, 100], range: [100, 0] }],
      marks: ['S', 'T'].map(id => ({ type: 'symbol', id, from: { data: 'd' }, key: 'k', encode: { update: { x: { scale: 'sx', field: 'x' }, y: { scale: 'sy', field: 'y' }, size: 6 } } }))
    });
    const SC = { x: view.getScaleById('sx'), y: view.getScaleById('sy') };
    if (c.win === 'half') SC.x.setRangeFactor([0, 0.5]);
    view.run();
    const M = { S: view.getMarkById('S'), T: view.getMarkById('T') }, stage = view.renderer.stage();
    const bind = () => {
      const o = { trigger: c.on, updateTrigger: c.upd, endTrigger: c.end, throttle: 0 };
      if (c.off) o.triggerOff = c.off;
      if (c.sel) o.selector = rv.pick(['#S', M.S, ['#S']]);
      if (!c.ex || rv.bool()) o.enableX = c.ex;
      if (!c.ey || rv.bool()) o.enableY = c.ey;
      if (c.sx) o.scaleX = rv.bool() ? 'sx' : SC.x;
      if (c.sy) o.scaleY = rv.bool() ? 'sy' : SC.y;
      const put = (k, v) => { if (has(v)) o[k] = v / K; };
      put('distortionX', c.dx); put('distortionY', c.dy); put('radiusX', c.rx); put('radiusY', c.ry); put('radiusRatioX', c.qx); put('radiusRatioY', c.qy);
      return view.interaction('fish-eye', o);
    };
    let it = bind();
    const set = d => { const s = SC[d].getFishEye(); return s ? { on: true, dist: off(s.distortion), r: off(s.radius), q: off(s.radiusRatio), f: off(s.focus) } : { on: false, dist: L.NAI, r: L.NAI, q: L.NAI, f: L.NAI }; };
    for (const e of beh.slice(1)) {
      if (e.op === 'rows') { view.getDataById('d').values(e.rows.map(r => Object.assign({}, r))); view.run(); }
      else if (e.op === 'unbind') { view.removeInteraction(it); view.run(); }
      else if (e.op === 'bind') it = bind();
      else {
        L.clock.now += 20;
        const g = e.t === 'stage' ? stage : M[e.t].elements[0].getGraphicItem();
        const ev = new V.CustomEvent(e.ty);
        ev.manager = stage.eventSystem.manager; ev.canvas = { x: e.px / K, y: e.py / K }; ev.pointerId = 1; ev.preventDefault = () => {};
        g.dispatchEvent(ev);
      }
      L.emit(Object.assign({}, e, { obs: M.S.elements.map(el => { const a = el.getGraphicItem().attribute; return { k: L.S(el.key), x: num(a.x), y: num(a.y) }; }), set: { x: set('x'), y: set('y') } }));
    }
  } catch (err) { L.emit({ op: 'threw', msg: String(err && err.stack).slice(0, 500) }); }
  L.dropView(view);
}
for (const b of L.behaviours()) exec(b);
L.done();
