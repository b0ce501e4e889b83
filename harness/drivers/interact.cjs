// Interactions bound to marks: pointer, legend and API events, timers, data changes, unbinding.
const L = require('../lib.cjs');
const { V } = L;
const rv = L.rng(L.seed + 5);
V.registerElementHighlightByGraphicName(); V.registerElementSelectByGraphicName(); V.registerElementHighlightByName(); V.registerElementHighlightByLegend(); V.registerElementActiveByLegend();
// only the timers of interactions use these delays
const DELAYS = [1111, 2222];
let timers = [], tnow = 0, tid = 1e6;
const realSet = global.setTimeout, realClear = global.clearTimeout;
global.setTimeout = (f, d, ...a) => { if (!DELAYS.includes(d)) return realSet(f, d, ...a); timers.push({ id: ++tid, at: tnow + d, f }); return tid; };
global.clearTimeout = id => { if (timers.some(t => t.id === id)) timers = timers.filter(t => t.id !== id); else realClear(id); };
function tick(dt) {
  const end = tnow + dt;
  for (;;) {
    const due = timers.filter(t => t.at <= end).sort((a, b) => a.at - b.at)[0];
    if (!due) break;
    timers = timers.filter(t => t !== due); tnow = due.at; due.f();
  }
  tnow = end;
}
const LEGEND = { legendItemHover: 1, legendItemUnHover: 1 };
function exec(beh) {
  L.mark(beh);
  timers = []; tnow = 0;
  const cfg = beh[0].cfg;
  const view = L.mkView({ width: 100, height: 100 });
  L.emit({ op: 'reset', cfg });
  try {
    const mk = (id, type) => {
      const enc = { update: type === 'text' ? { x: 1, y: 1, text: d => d.k } : { x: d => d.k.charCodeAt(0), y: 2, size: 5 } };
      for (const s of cfg.enc[id]) enc[s] = { lineWidth: 3 };
      return { type, id, name: type === 'symbol' ? 'sym' : 'lab', from: { data: 'd' + id }, key: 'k', groupBy: 'g', graphicName: el => el.getDatum().nm, encode: enc };
    };
    view.parseSpec({ data: ['A', 'B', 'C'].map(i => ({ id: 'd' + i, values: [] })), marks: [mk('A', 'symbol'), mk('B', 'symbol'), mk('C', 'text')] });
    view.run();
    const M = { A: view.getMarkById('A'), B: view.getMarkById('B'), C: view.getMarkById('C') };
    const insts = {};
    let log = [];
    const nm = els => els.filter(e => e && e.mark).map(e => e.mark.id() + '|' + e.key);
    const kinds = ['element-select', 'element-select-by-graphic-name', 'element-highlight', 'element-active', 'element-highlight-by-key', 'element-highlight-by-group', 'element-highlight-by-graphic-name', 'element-highlight-by-name', 'element-highlight-by-legend', 'element-active-by-legend'];
    for (const k of kinds) for (const w of ['start', 'reset']) view.on(k + ':' + w, p => log.push({ src: k, what: w, els: nm(p.elements) }));
    const stage = view.renderer.stage();
    const el = e => M[e.m].elements.find(x => x.key === e.k);
    const fire = (ty, g, detail) => { const ev = new V.CustomEvent(ty, detail); ev.manager = stage.eventSystem.manager; g.dispatchEvent(ev); };
    const sel = ms => {
      if (ms.length === 1) return rv.pick(['#' + ms[0], ['#' + ms[0]], M[ms[0]], [M[ms[0]]]]);
      return rv.pick([ms.map(x => '#' + x), ms.map(x => M[x]), ['#' + ms[0]].concat(ms.slice(1).map(x => M[x]))].concat(ms[0] === 'A' && ms[1] === 'B' && ms.length === 2 ? ['symbol', '@sym', ['@sym']] : []));
    };
    const off1 = f => f.t === 'ev' ? f.v : f.t === 'view' ? 'view:' + f.v : f.t === 'num' ? f.d : f.t;
    const bind = o => {
      const sp = { id: o.iid, selector: sel(o.marks), onStart: p => { log.push({ src: o.name, what: 'start', els: nm(p.elements) }); }, onReset: p => { log.push({ src: o.name, what: 'reset', els: nm(p.elements) }); } };
      if (o.kind.includes('legend') || o.kind.endsWith('by-name')) { if (o.by === 'field') sp.filterField = 'f'; else sp.filterType = o.by; }
      if (o.kind.endsWith('by-name')) { sp.graphicName = o.names.length === 1 && rv.bool() ? o.names[0] : o.names; }
      if (o.kind.includes('highlight')) { sp.highlightState = o.state; sp.blurState = o.rev; } else { sp.state = o.state; if (o.rev !== '') sp.reverseState = o.rev; }
      if (o.kind.includes('select')) { if (o.multi) sp.isMultiple = true; }
      if (!o.kind.includes('legend')) {
        sp.trigger = o.trig.length === 1 ? o.trig[0] : o.trig;
        sp.triggerOff = o.off.length === 1 ? off1(o.off[0]) : o.off.length ? o.off.map(off1) : 'none';
      }
      insts[o.name] = view.interaction(o.kind, sp);
    };
    for (const e of beh.slice(1)) {
      const line = Object.assign({}, e);
      log = [];
      if (e.op === 'rows') { view.getDataById('d' + e.m).values(e.rows.map(x => Object.assign({}, x))); view.run(); }
      else if (e.op === 'bind') bind(e.o);
      else if (e.op === 'unbind') { if (e.by === 'all') view.removeAllInteractions(); else if (e.by === 'type') view.removeInteraction(e.v); else if (e.by === 'id') view.removeInteraction(rv.bool() ? null : 'x', e.v); else view.removeInteraction(insts[e.v]); }
      else if (e.op === 'ev') {
        const t = e.t === 'el' ? el(e) : null;
        line.name = t ? t.getGraphicItem().name : ''; line.text = t && e.m === 'C' ? t.getGraphicItem().attribute.text : '';
        fire(e.ty, t ? t.getGraphicItem() : stage, LEGEND[e.ty] ? { data: { id: e.key } } : undefined);
      } else if (e.op === 'start') { const t = e.t === 'el' ? el(e) : undefined; insts[e.i].start(e.t === 'key' ? e.key : t); }
      else if (e.op === 'ireset') { const i = insts[e.i]; if (i.resetAll && i.type !== 'element-highlight-by-graphic-name' && rv.bool()) i.resetAll(); else i.reset(); }
      else if (e.op === 'resetEl') insts[e.i].reset(el(e));
      else if (e.op === 'tick') tick(e.dt);
      if (rv.bool(0.15)) view.run();
      line.obs = []; for (const m of ['A', 'B', 'C']) for (const x of M[m].elements) line.obs.push({ id: m + '|' + x.key, st: x.getStates().slice() });
      line.log = log;
      L.emit(line);
    }
  } catch (err) { L.emit({ op: 'threw', msg: String(err && err.stack).slice(0, 500) }); }
  L.dropView(view);
}
for (const b of L.behaviours()) exec(b);
const r = L.rng(L.seed + 3);
const total = L.quick ? 900 : 9000;
const G = { a: 'g1', b: 'g1', c: 'g2', d: 'g2' }, NM = { a: 'p', b: 'q', c: 'p', d: 'lbl' };
const S2 = ['sel', 'rev', 'hl', 'blur', 'act'];
for (let t = 0; t < total; t++) {
  const cfg = { enc: { A: r.bool(0.7) ? S2 : r.subset(S2, 0.7), B: r.bool(0.7) ? S2 : r.subset(S2, 0.6), C: r.bool(0.3) ? r.subset(S2) : [] } };
  const rows = () => { const ks = r.shuffle(['a', 'b', 'c', 'd']).slice(0, r.int(1, 4)); return ks.map(k => ({ k, g: G[k], nm: NM[k], f: r.pick(['a', 'b', 'g1']) })).sort((x, y) => (x.g < y.g ? -1 : x.g > y.g ? 1 : 0)); };
  const ks = { A: [], B: [], C: [] };
  const beh = [{ op: 'reset', cfg }];
  const setRows = m => { const q = rows(); ks[m] = q.map(x => x.k); beh.push({ op: 'rows', m, rows: q }); };
  ['A', 'B', 'C'].forEach(setRows);
  const ints = [];
  const bind = () => {
    const kind = r.pick(['element-select', 'element-select', 'element-select', 'element-highlight', 'element-highlight', 'element-active', 'element-highlight-by-key', 'element-highlight-by-group', 'element-highlight-by-graphic-name', 'element-select-by-graphic-name', 'element-highlight-by-name', 'element-highlight-by-legend', 'element-active-by-legend']);
    const sel = kind.includes('select'), hi = kind.includes('highlight'), leg = kind.includes('legend');
    const o = { kind, name: 'i' + ints.length, iid: r.pick(['u', 'v', 'w']) + ints.length % 2, marks: r.pick([['A'], ['A', 'B'], ['A', 'B'], ['B', 'A'], ['B'], ['A', 'B', 'C'], ['B', 'C']]), state: hi ? 'hl' : sel ? 'sel' : r.pick(['act', 'act', 'sel']), rev: hi ? 'blur' : sel && r.bool(0.6) ? r.pick(['rev', 'rev', 'blur']) : '', multi: sel && r.bool(0.5), trig: [], off: [], by: kind.endsWith('by-name') || leg ? r.pick(['key', 'groupKey', 'field']) : 'key', names: kind.endsWith('by-name') ? r.pick([['lbl'], ['lbl', 'p'], ['q']]) : [] };
    if (leg) { o.trig = ['legendItemHover']; o.off = [{ t: 'ev', v: 'legendItemUnHover', d: 0 }]; }
    else if (sel) {
      o.trig = r.pick([['click'], ['click'], ['pointerover'], ['click', 'tap']]);
      const F = [{ t: 'empty', v: '', d: 0 }, { t: 'ev', v: 'click', d: 0 }, { t: 'ev', v: 'dblclick', d: 0 }, { t: 'view', v: 'dblclick', d: 0 }, { t: 'view', v: 'pointerout', d: 0 }, { t: 'ev', v: 'pointerout', d: 0 }, { t: 'none', v: '', d: 0 }, { t: 'num', v: '', d: r.pick(DELAYS) }];
      const one = r.bool(0.2) ? F[7] : r.pick(F);
      o.off = [one];
      if (one.t !== 'num' && r.bool(0.35)) { const two = r.pick(F.filter(f => f.t !== 'num' && f.v !== one.v)); o.off.push(two); }
    } else {
      o.trig = r.pick([['pointerover'], ['pointerover'], ['click']]);
      if (kind === 'element-active' && r.bool(0.3)) o.trig = ['pointerover', 'tap'];
      const vw = kind === 'element-highlight' || kind === 'element-highlight-by-graphic-name';
      o.off = [r.pick([{ t: 'ev', v: 'pointerout', d: 0 }, { t: 'ev', v: 'dblclick', d: 0 }].concat(vw ? [{ t: 'view', v: 'pointerout', d: 0 }, { t: 'view', v: 'dblclick', d: 0 }] : [], r.bool(0.2) ? [{ t: 'none', v: '', d: 0 }] : []))];
    }
    ints.push(o); beh.push({ op: 'bind', o });
  };
  bind(); if (r.bool(0.6)) bind();
  const tgt = () => { const p = r(); if (p < 0.15) return { t: 'stage', m: '', k: '' }; const m = r.pick(['A', 'A', 'A', 'B', 'B', 'C']); return { t: 'el', m, k: r.pick(ks[m]) }; };
  const n = r.int(5, 20);
  for (let i = 0; i < n; i++) {
    const p = r(), o = r.pick(ints);
    if (ints.some(x => x.off.some(f => f.t === 'num')) && r.bool(0.25)) { beh.push({ op: 'tick', dt: r.pick([300, 500, 700, 1111, 2222]) }); continue; }
    if (p < 0.06) setRows(r.pick(['A', 'A', 'B', 'C']));
    else if (p < 0.09 && ints.length < 4) bind();
    else if (p < 0.13) { const by = r.pick(['inst', 'type', 'id', 'all']); beh.push({ op: 'unbind', by, v: by === 'inst' ? o.name : by === 'type' ? o.kind : by === 'id' ? o.iid : '' }); }
    else if (p < 0.2) beh.push({ op: 'tick', dt: r.pick([500, 1111, 2222, 1200]) });
    else if (p < 0.25) beh.push({ op: 'ireset', i: o.name });
    else if (p < 0.28 && !o.kind.includes('select') && o.kind !== 'element-highlight' && o.kind !== 'element-highlight-by-graphic-name') { const g = tgt(); if (g.t === 'el') beh.push(Object.assign({ op: 'resetEl', i: o.name }, g)); }
    else if (p < 0.34 && !o.kind.includes('graphic-name') && o.kind !== 'element-highlight-by-name') {
      if (o.kind.includes('legend')) beh.push({ op: 'start', i: o.name, t: 'key', m: '', k: '', ty: '', name: '', text: '', key: r.pick(['a', 'b', 'g1', 'g2']) });
      else beh.push(Object.assign({ op: 'start', i: o.name, ty: '', name: '', text: '', key: '' }, tgt()));
    } else {
      const q = r.bool(0.8) ? o : r.pick(ints);
      const ty = r.bool(0.7) ? r.pick(q.trig) : r.bool(0.7) ? r.pick(q.off.filter(f => f.v).map(f => f.v).concat(q.trig)) : r.pick(['click', 'pointerover', 'pointerout', 'dblclick', 'tap', 'legendItemHover', 'legendItemUnHover']);
      beh.push(Object.assign({ op: 'ev', ty, name: '', text: '', key: r.pick(['a', 'b', 'c', 'g1', 'g2']) }, tgt()));
    }
  }
  exec(beh);
}
L.done();
