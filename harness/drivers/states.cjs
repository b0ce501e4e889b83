// Element and mark states: every way of setting them, on symbol and line marks, with and without state animation.
const L = require('../lib.cjs');
const rv = L.rng(L.seed + 5);
function exec(beh, coll, anim) {
  L.mark(beh);
  const cfg = beh[0].cfg;
  const CH = coll ? { x: 'lineDashOffset', y: 'dx', size: 'miterLimit', lineWidth: 'lineWidth' } : { x: 'x', y: 'y', size: 'size', lineWidth: 'lineWidth' };
  const first = d => (Array.isArray(d) ? d[0] : d);
  const enc = e => e.t === 'const' ? e.c : e.t === 'field' ? (rv.bool() ? { field: 'v' } : d => first(d).v) : e.t === 'sig' ? { signal: 's' } : { callback: (d, el, p) => first(d).v * 3 + p.s + e.c, dependency: 's' };
  const encs = m => { const o = {}; for (const c of Object.keys(m)) o[CH[c]] = enc(m[c]); return o; };
  const rank = ['f', 'h', 'q', 's', 'z'];
  const sort = cfg.sort === 'asc' ? (a, b) => rank.indexOf(a) - rank.indexOf(b) : cfg.sort === 'desc' ? (a, b) => rank.indexOf(b) - rank.indexOf(a) : undefined;
  const ms = m => m.t === 'none' ? null : m.t === 'const' ? (m.q.length === 1 && rv.bool() ? m.q[0] : m.q.slice()) : d => (first(d).v % 2 === 1 ? m.q.slice() : []);
  const view = L.mkView({ width: 100, height: 100 });
  L.emit({ op: 'reset', cfg });
  try {
    const encode = { update: encs(cfg.enc) };
    if (coll) { encode.update.x = d => d.v; encode.update.y = d => d.v; }
    for (const n of Object.keys(cfg.st.by)) encode[n] = encs(cfg.st.by[n]);
    if (cfg.st.hasf) encode.f = (d, el, name, next) => ({ [CH.x]: 100 + 10 * next.length + first(d).v, [CH.size]: 200 + first(d).v });
    view.parseSpec({ signals: [{ id: 's', value: cfg.sig }], data: [{ id: 'd', values: [] }],
      marks: [{ type: coll ? 'line' : 'symbol', id: 'm', from: { data: 'd' }, key: 'k', groupBy: coll ? 'k' : undefined, encode, stateSort: sort, state: cfg.ms.t === 'none' ? undefined : ms(cfg.ms), animation: anim ? { state: { duration: 50, easing: 'linear' } } : undefined }] });
    const m = view.getMarkById('m'), d = view.getDataById('d'), sg = view.getSignalById('s');
    const el = k => m.elements.find(e => (coll ? e.groupKey : e.key) === k);
    const num = x => (x === undefined || x === null ? L.NAI : L.I(Math.round(x * 1e6) / 1e6));
    const obs = () => m.elements.map(e => { const a = e.getGraphicItem().attribute; return { k: L.S(coll ? e.groupKey : e.key), st: e.getStates().slice(), at: ['x', 'y', 'size', 'lineWidth'].map(c => num(a[CH[c]])) }; });
    for (const e of beh.slice(1)) {
      const line = Object.assign({}, e);
      const E = e.k !== undefined && el(e.k);
      if (e.op === 'rows') d.values(e.rows.map(x => Object.assign({}, x)));
      else if (e.op === 'sig') sg.value(e.v);
      else if (e.op === 'ms') m.state(ms(e.ms), sort);
      else if (e.op === 'def') m.encodeState(e.n, encs(e.m), true);
      else if (e.op === 'run') view.run();
      else if (e.op === 'use') E.useStates(e.q.slice());
      else if (e.op === 'add') E.addState(e.q.length === 1 && rv.bool() ? e.q[0] : e.q.slice());
      else if (e.op === 'rt') E.addState(e.n, encs2(e.a));
      else if (e.op === 'del') E.removeState(e.q.length === 1 && rv.bool() ? e.q[0] : e.q.slice());
      else if (e.op === 'upd') { const o = {}; for (const u of e.u) o[u.n] = u.has ? encs2(u.a) : u.on; E.updateStates(o); }
      else if (e.op === 'clear') E.clearStates();
      if (anim) for (let i = 0; i < 12; i++) L.clock.frame(40);
      if (!['rows', 'sig', 'ms', 'def'].includes(e.op)) line.obs = obs();
      L.emit(line);
    }
    function encs2(mm) { const o = {}; for (const c of Object.keys(mm)) o[CH[c]] = mm[c].t === 'const' ? mm[c].c : { field: 'v' }; return o; }
  } catch (err) { L.emit({ op: 'threw', msg: String(err && err.stack).slice(0, 500) }); }
  L.dropView(view);
}
for (const b of L.behaviours()) exec(b.map(e => e), false, false);
const r = L.rng(L.seed + 3);
const total = L.quick ? 900 : 9000;
for (let t = 0; t < total; t++) {
  const coll = r.bool(0.2), anim = r.bool(0.2);
  const mk = () => r.pick([{ t: 'const', c: r.int(0, 50) }, { t: 'field' }, { t: 'sig' }, { t: 'sum', c: r.int(0, 9) }]);
  const mkRt = () => { const o = {}; for (const c of ['x', 'y', 'size', 'lineWidth']) if (r.bool(0.5)) o[c] = r.pick([{ t: 'const', c: r.int(51, 60) }, { t: 'field' }]); if (!Object.keys(o).length) o.y = { t: 'const', c: 61 }; return o; };
  const some = p => { const o = {}; for (const c of ['x', 'y', 'size', 'lineWidth']) if (r.bool(p)) o[c] = mk(); return o; };
  const cfg = { enc: Object.assign(some(anim ? 1 : 0.5), { y: { t: 'sum', c: 1 } }), st: { hasf: r.bool(0.7), by: {} }, sort: r.pick(['none', 'none', 'asc', 'desc']), ms: { t: 'none', q: [] }, sig: r.int(0, 9) };
  for (const n of ['h', 'q', 's']) if (r.bool(0.8)) cfg.st.by[n] = Object.assign({ x: mk() }, some(0.4));
  const mkMs = () => { const q = r.shuffle(r.subset(['f', 'h', 'q', 's'], 0.4)); return r.bool(0.6) ? { t: 'const', q } : { t: 'odd', q }; };
  if (r.bool(0.3)) cfg.ms = mkMs();
  let ks = [];
  const rows = () => { ks = r.shuffle(['a', 'b', 'c']).slice(0, r.int(1, 3)); return ks.map(k => ({ k, v: r.int(0, 9) })); };
  const beh = [{ op: 'reset', cfg }, { op: 'rows', rows: rows() }, { op: 'run' }];
  const names = p => r.shuffle(r.subset(['f', 'h', 'q', 's', 'z'], p));
  const n = r.int(4, 16);
  let used = [mkRt(), mkRt()];
  const rt = () => r.pick(used);
  for (let i = 0; i < n; i++) {
    const p = r(), k = r.pick(ks);
    if (p < 0.06) beh.push({ op: 'rows', rows: rows() }, { op: 'run' });
    else if (p < 0.1) beh.push({ op: 'sig', v: r.int(0, 9) }, { op: 'run' });
    else if (p < 0.14) beh.push({ op: 'ms', ms: r.bool(0.3) ? { t: 'none', q: [] } : mkMs() }, { op: 'run' });
    else if (p < 0.17) beh.push({ op: 'def', n: r.pick(['h', 'q', 's']), m: Object.assign({ x: mk() }, some(0.4)) }, { op: 'run' });
    else if (p < 0.22) beh.push({ op: 'run' });
    else if (p < 0.37) beh.push({ op: 'use', k, q: names(0.4) });
    else if (p < 0.52) beh.push({ op: 'add', k, q: r.bool() ? [r.pick(['f', 'h', 'q', 's', 'z'])] : names(0.4) });
    else if (p < 0.66) beh.push({ op: 'rt', k, n: r.pick(['f', 'h', 'q', 's', 'z']), a: rt() });
    else if (p < 0.8) beh.push({ op: 'del', k, q: r.bool(0.6) ? [r.pick(['f', 'h', 'q', 's', 'z'])] : names(0.5) });
    else if (p < 0.95) beh.push({ op: 'upd', k, u: names(0.5).map(n => { const has = r.bool(0.4); return { n, on: r.bool(), has, a: has ? rt() : { y: { t: 'const', c: 0 } } }; }) });
    else beh.push({ op: 'clear', k });
  }
  exec(beh, coll, anim);
}
L.done();
