// Sankey highlight: nodes and links are pointed at and left, the data changes; the state and the part of every element.
const L = require('../lib.cjs');
const { V } = L;
V.vsankey.registerSankeyTransforms(); V.vsankey.registerSankeyHighlight(); V.registerLinkPathGlyph();
const rv = L.rng(L.seed + 11);
const given = v => v !== L.NAI;
function values(d) {
  if (!d.tree) return [{ nodes: d.nodes.map(k => ({ name: k })), links: d.links.map(l => ({ source: l.s, target: l.t, value: l.v })) }];
  const at = {}, roots = [];
  for (const e of d.ents.slice().sort((a, b) => a.p.length - b.p.length)) {
    const n = { name: e.p[e.p.length - 1] };
    if (given(e.v)) n.value = e.v;
    at[e.p.join('/')] = n;
    if (e.p.length === 1) roots.push(n); else { const u = at[e.p.slice(0, -1).join('/')]; (u.children = u.children || []).push(n); }
  }
  return [{ nodes: roots }];
}
function exec(beh) {
  L.mark(beh);
  const cfg = beh[0].cfg;
  const view = L.mkView({ width: 300, height: 200 });
  L.emit({ op: 'reset', cfg });
  try {
    const states = (enc, on) => { for (const s of on) enc[s] = s === 'hl' ? { lineWidth: 3 } : { fillOpacity: 0.2 }; return enc; };
    const ends = o => ({ [o + '0']: { field: o + '0' }, [o + '1']: { field: o + '1' } });
    const box = { x: { field: 'x0' }, x1: { field: 'x1' }, y: { field: 'y0' }, y1: { field: 'y1' } };
    const part = key => ({ id: key, source: 'd', transform: [{ type: 'map', all: true, callback: r => (r[0] ? r[0][key] : []) }] });
    const link = cfg.glyph ? { type: 'glyph', glyphType: 'linkPath', encode: states({ update: Object.assign(ends('x'), ends('y'), { thickness: { field: 'thickness' } }) }, cfg.encL) } : { type: 'rect', encode: states({ update: box }, cfg.encL) };
    const io = { type: 'sankey-highlight', nodeSelector: '#N', linkSelector: '#L', highlightState: 'hl', blurState: 'bl', effect: cfg.eff, trigger: cfg.on, triggerOff: cfg.off };
    if (cfg.eff === 'related' && rv.bool()) delete io.effect;
    if (cfg.on === 'pointerover' && rv.bool()) { delete io.trigger; delete io.triggerOff; }
    view.parseSpec({
      data: [{ id: 'd', values: values(cfg.d), transform: [{ type: 'sankey', width: 300, height: 200, nodeKey: r => r.name, dropIsolatedNode: false }] }, part('nodes'), part('links')],
      marks: [
        { type: 'rect', id: 'N', from: { data: 'nodes' }, key: 'key', encode: states({ update: box }, cfg.encN) },
        Object.assign({ id: 'L', from: { data: 'links' }, key: r => r.source + '>' + r.target }, link),
        { type: 'symbol', id: 'X', encode: { update: { x: 5, y: 5, size: 4 } } }
      ],
      interactions: [io]
    });
    view.run();
    const N = view.getMarkById('N'), K = view.getMarkById('L'), X = view.getMarkById('X'), stage = view.renderer.stage();
    const idOf = el => (el.mark === N ? [L.S(el.key)] : el.key.split('>'));
    const fire = (ty, g) => { const ev = new V.CustomEvent(ty); ev.manager = stage.eventSystem.manager; g.dispatchEvent(ev); };
    for (const e of beh.slice(1)) {
      if (e.op === 'data') { view.getDataById('d').values(values(e.d)); view.run(); }
      else {
        let g = stage;
        if (e.x.length) {
          g = (e.x.length === 1 ? N : K).elements.find(x => x.key === e.x.join('>')).getGraphicItem();
          if (g.children && g.children.length && rv.bool()) g = g.children[0];
        } else if (rv.bool()) g = X.elements[0].getGraphicItem();
        fire(e.ty, g);
        if (rv.bool(0.1)) view.run();
      }
      const obs = N.elements.concat(K.elements).map(el => ({ x: idOf(el), st: el.getStates().slice(), r: L.FX(el.getGraphicItem().attribute.ratio, 1000) }));
      L.emit(Object.assign({}, e, { obs }));
    }
  } catch (err) { L.emit({ op: 'threw', msg: String(err && err.stack).slice(0, 500) }); }
  L.dropView(view);
}
for (const b of L.behaviours()) exec(b);
L.done();
