// Built-in animation types: elements of one mark enter, change and leave; what is drawn at every quarter of the animations.
const L = require('../lib.cjs');
const T = 80; // duration of every animation: four frames
const K = 1000;
const num = v => L.FX(v, K);
const ORI = { growAngle: ['clockwise', 'anticlockwise'], rotate: ['clockwise', 'anticlockwise'], growRadius: ['outside', 'inside'] };
const has = v => v !== L.NAI;
function optOf(c) {
  if (c.none) return undefined;
  const o = {}, ori = ORI[c.kind] || ['positive', 'negative'];
  if (c.ori) o.orient = ori[c.ori === 'neg' ? 1 : 0];
  if (c.ov) o.overall = c.ov === 'num' ? c.ovv / K : c.ov === 'yes';
  if (c.dir) o.direction = c.dir;
  if (c.off) o.offset = c.off / K;
  if (has(c.ang)) o.angle = c.ang / K;
  if (c.clipd) o.clipDimension = c.clipd;
  if (has(c.px) || has(c.py)) {
    const p = {}; if (has(c.px)) p.x = c.px / K; if (has(c.py)) p.y = c.py / K;
    if (c.kind === 'move') o.point = c.fn ? () => p : p; else o.center = p;
  }
  return o;
}
// channel -> value of a datum
const ENC = {
  rect: c => Object.assign({ x: r => r.x / K, y: r => r.y / K }, c.wx === 'x1' ? { x1: r => (r.x + r.w) / K } : { width: r => r.w / K }, c.wy === 'y1' ? { y1: r => (r.y + r.h) / K } : { height: r => r.h / K }),
  arc: () => ({ x: 100, y: 100, startAngle: r => r.s / K, endAngle: r => r.e / K, innerRadius: r => r.ri / K, outerRadius: r => r.ro / K }),
  symbol: c => { const o = { x: r => r.x / K, y: r => r.y / K, size: 10 }; for (const [f, ch] of [['op', 'opacity'], ['fo', 'fillOpacity'], ['so', 'strokeOpacity'], ['sx', 'scaleX'], ['sy', 'scaleY'], ['an', 'angle']]) if (c.set.includes(f)) o[ch] = r => r[f] / K; return o; },
  polygon: () => ({ points: r => r.pts.map(p => ({ x: p.x / K, y: p.y / K })) }),
  interval: c => ({ x: { scale: 'x', field: 'i' }, y: { scale: 'y', field: 'v' } })
};
const path = c => Object.assign({ x: r => r.x / K, y: r => r.y / K }, c.wx === 'x1' ? { x1: r => r.x1 / K } : {}, c.wy === 'y1' ? { y1: r => r.y1 / K } : {}, c.set.includes('clip') ? { clipRange: r => r.clip / K } : {});
const isPath = c => c.mark === 'line' || c.mark === 'area';
function draw(cfg, a) {
  if (cfg.mark === 'rect' || cfg.mark === 'interval') {
    const side = (p, w, q) => { const e = w === undefined || w === null ? q : p + w; return [num(Math.min(p, e)), num(Math.max(p, e))]; };
    return { X: side(a.x, a.width, a.x1), Y: side(a.y, a.height, a.y1) };
  }
  if (cfg.mark === 'arc') return { A: [num(a.startAngle), num(a.endAngle)], R: [num(a.innerRadius), num(a.outerRadius)] };
  if (cfg.mark === 'symbol') return { x: [num(a.x)], y: [num(a.y)], op: [num(a.opacity ?? 1)], fo: [num(a.fillOpacity ?? 1)], so: [num(a.strokeOpacity ?? 1)], sx: [num(a.scaleX ?? 1)], sy: [num(a.scaleY ?? 1)], an: [num(a.angle ?? 0)] };
  const ps = a.points || [];
  const o = { x: ps.map(p => num(p.x)), y: ps.map(p => num(p.y)), clip: [num(a.clipRange ?? 1)] };
  if (cfg.mark === 'area') { o.x1 = ps.map(p => num(p.x1 ?? p.x)); o.y1 = ps.map(p => num(p.y1 ?? p.y)); }
  return o;
}
function exec(beh) {
  L.mark(beh);
  const cfg = beh[0].cfg, w = cfg.vw / K, h = cfg.vh / K;
  const view = L.mkView({ width: w, height: h });
  L.emit({ op: 'reset', cfg });
  try {
    const options = optOf(cfg), given = cfg.fn && cfg.kind !== 'move' ? () => options : options;
    const timing = { duration: T, easing: 'linear' };
    const an = { enter: Object.assign({ type: cfg.kind + 'In', options: given }, timing), exit: Object.assign({ type: cfg.kind + 'Out', options: given }, timing) };
    if (cfg.upd) an.update = Object.assign({ type: 'update' }, timing);
    const mark = { type: cfg.mark, id: 'm', from: { data: 'd' }, animation: an };
    if (isPath(cfg)) Object.assign(mark, { groupBy: 'k', key: 'i', encode: { update: path(cfg) } }); else Object.assign(mark, { key: 'k', encode: { update: ENC[cfg.mark](cfg) } });
    const spec = { data: [{ id: 'd', values: [] }] };
    if (cfg.mark === 'interval') {
      mark.coordinate = 'co';
      spec.coordinates = [{ id: 'co', type: 'cartesian', start: [0, 0], end: [w, h], transpose: cfg.tr }];
      const range = (dimension, reversed) => ({ coordinate: 'co', dimension, isSubshaft: false, reversed });
      spec.scales = [{ id: 'x', type: 'band', domain: [0, 1], range: range('x', false) }, { id: 'y', type: 'linear', domain: [0, 100], range: range('y', true) }];
    }
    spec.marks = cfg.g ? [{ type: 'group', id: 'g', encode: { update: { x: 10, y: 10, width: cfg.gw / K, height: cfg.gh / K, clip: true } }, marks: [mark] }] : [mark];
    view.parseSpec(spec);
    view.run();
    const m = view.getMarkById('m');
    L.clock.frame(20);
    for (const e of beh.slice(1)) {
      if (e.op === 'rows') {
        view.getDataById('d').values(isPath(cfg) ? [].concat(...e.rows.map(r => r.pts.map((p, i) => Object.assign({ k: r.k, i, clip: r.clip }, p)))) : e.rows.map(r => Object.assign({}, r)));
        view.run();
      } else L.clock.frame(e.q * T / 4);
      const els = {};
      for (const el of m.getAllElements()) {
        const a = el.getGraphicItem().attribute, k = L.S(isPath(cfg) ? el.groupKey : el.key);
        els[k] = els[k] ? { d: { twice: [1] }, dim: '' } : { d: draw(cfg, a), dim: a.clipRangeByDimension ? L.S(a.clipRangeByDimension) : '' };
      }
      L.emit(Object.assign({}, e, { obs: { els } }));
    }
  } catch (err) { L.emit({ op: 'threw', msg: String(err && err.stack).slice(0, 500) }); }
  const tk = view.renderer && view.renderer.stage() && view.renderer.stage().ticker;
  L.dropView(view);
  if (tk) tk.stop();
}
for (const b of L.behaviours()) exec(b);
L.done();
