// Data transforms: pipelines on two data sets (B derived from A), a lookup table, a signal and post filters.
const L = require('../lib.cjs');
const NAMES = ['k', 'g', 'h', 'v', 'w', 'p', 'q', 'r', 'a1', 'a2', 'a3', 'b1', 'b2', 'b3'];
const NULL = -88888888, FRAC = 500000000, NAME = 900000000;
const code = x => (x === null ? NULL : typeof x === 'string' ? (NAMES.indexOf(x) >= 0 ? NAME + 1 + NAMES.indexOf(x) : /^-?\d+$/.test(x) ? +x : L.NAI)
  : typeof x !== 'number' || !isFinite(x) ? L.NAI : Math.abs(x - Math.round(x)) < 1e-7 ? (Math.abs(x) < 1e8 ? Math.round(x) : L.NAI) : Math.abs(x) < 2e5 ? FRAC + Math.round(x * 1000) : L.NAI);
const proj = rows => (rows || []).map(r => { const o = {}; for (const f of Object.keys(r)) if (!f.startsWith('VGRAMMAR_DATA_ID')) o[f] = code(r[f]); return o; });
const cmp = { gt: (a, b) => a > b, le: (a, b) => a <= b, odd: a => ((a % 2) + 2) % 2 === 1, ne: (a, b) => a !== b };
function exec(cfg, cmds, rnd, tag) {
  L.mark({ cfg, cmds });
  const view = L.mkView({ width: 50, height: 50 });
  view.signal(cfg.sig).id('n');
  const Lk = view.data([]).id('L');
  const A = view.data([]).id('A');
  const Bd = view.data().id('B').source('A');
  const filters = {};
  // a parameter: constant, signal reference, or callback on the signal
  const opt = (p, f = x => x) => ('s' in p ? (rnd.bool() ? { callback: ps => f(ps.n), dependency: ['n'] } : { signal: rnd.bool() ? 'n' : view.getSignalById('n') }) : f(p.c));
  const val = (p, params) => ('s' in p ? params.n : p.c);
  const dep = p => ('s' in p ? { dependency: ['n'] } : {});
  const real = t => {
    switch (t.t) {
      case 'filter': {
        const cb = (d, params) => cmp[t.cmp](d[t.f], val(t.p, params));
        return Object.assign({ type: 'filter', callback: cb }, dep(t.p));
      }
      case 'sort': {
        if (t.fn) return { type: 'sort', sort: (a, b) => { for (let i = 0; i < t.fs.length; i++) { const d = (a[t.fs[i]] - b[t.fs[i]]) * (t.os[i] === 'desc' ? -1 : 1); if (d) return d; } return 0; } };
        const one = t.fs.length === 1 && rnd.bool();
        return { type: 'sort', sort: { field: one ? t.fs[0] : t.fs.slice(), order: t.os.length === 0 ? undefined : one ? t.os[0] : t.os.slice() } };
      }
      case 'map': return Object.assign({ type: 'map', as: t.as, callback: (d, params) => d[t.f] * 2 + val(t.p, params) }, dep(t.p));
      case 'mapall': return Object.assign({ type: 'map', all: true, callback: (rows, params) => (t.how === 'rev' ? rows.slice().reverse() : rows.slice(0, Math.max(0, val(t.p, params)))) }, dep(t.p));
      case 'pick': return { type: 'pick', fields: t.fs.map(f => (t.as[t.fs.indexOf(f)] !== f && rnd.bool(0.3) ? d => d[f] : f)), as: t.as.every((a, i) => a === t.fs[i]) && false ? undefined : t.as.slice() };
      case 'fold': return Object.assign({ type: 'fold', fields: t.fs.slice() }, t.askey === 'key' && rnd.bool() ? {} : { asKey: t.askey }, t.asval === 'value' && rnd.bool() ? {} : { asValue: t.asval }, t.ret.length ? { retains: t.ret.slice() } : {});
      case 'unfold': return Object.assign({ type: 'unfold', keyField: t.key, valueField: t.val }, t.gb.length ? { groupBy: t.gb.length === 1 && rnd.bool() ? t.gb[0] : t.gb.slice() } : {}, t.agg === 'sum' && rnd.bool() ? {} : { aggregateType: t.agg });
      case 'join': return Object.assign({ type: 'join', from: { data: 'L' }, key: t.key, fields: t.fs.slice(), values: t.vals.slice(), as: t.as.slice() }, t.def === NULL ? {} : { default: t.def });
      case 'range': return Object.assign({ type: 'range', start: t.lo, stop: opt(t.hi), as: t.as }, t.step === 1 && rnd.bool() ? {} : { step: t.step });
      case 'id': return { type: 'identifier', as: t.as };
      case 'bin': {
        const o = { type: 'bin', field: t.f, as: t.as.slice() };
        o.extent = 's' in t.lo || 's' in t.hi ? (rnd.bool() ? { callback: ps => [val(t.lo, ps), val(t.hi, ps)], dependency: ['n'] } : [t.lo, t.hi].map(p => ('s' in p ? { signal: 'n' } : p.c))) : [t.lo.c, t.hi.c];
        if (t.step > 0) o.step = t.step; else o.bins = opt(t.bins);
        return o;
      }
      case 'pie': { const n = { start: 'asStartAngle', end: 'asEndAngle', mid: 'asMiddleAngle', rad: 'asRadian', ratio: 'asRatio', k: 'asK' };
        const o = { type: 'pie', field: t.f, startAngle: t.lo, endAngle: t.hi }; for (const q in t.as) o[n[q]] = t.as[q]; return o; }
      case 'funnel': { const n = { last: 'asLastValue', next: 'asNextValue', cur: 'asCurrentValue', tr: 'asTransformRatio', reach: 'asReachRatio', h: 'asHeightRatio', vr: 'asValueRatio', nvr: 'asNextValueRatio', lvr: 'asLastValueRatio' };
        const o = { type: 'funnel', field: t.f }; if (!t.cone) o.isCone = false; if (t.visual) o.heightVisual = true; if (t.max > 0) o.range = { max: t.max }; for (const q in t.as) o[n[q]] = t.as[q]; return o; }
      case 'stack': { const n = { stack: 'asStack', prev: 'asPrevStack', sum: 'asSum', pct: 'asPercent', pstack: 'asPercentStack', pprev: 'asPrevPercentStack' };
        const o = { type: 'stack', dimensionField: t.dim, stackField: t.f }; if (t.off !== 'diverging' || rnd.bool()) o.offset = t.off; if (t.neg) o.order = 'negative'; for (const q in t.as) o[n[q]] = t.as[q]; return o; }
      case 'sample': return Object.assign({ type: 'sampling', mode: t.mode, yfield: t.f, groupBy: t.gb || undefined }, sz(t.size));
      case 'lttb': return Object.assign({ type: 'sampling', mode: rnd.bool() ? 'lttb' : undefined, yfield: t.f }, sz(t.size));
    }
    throw new Error('unknown ' + t.t);
  };
  const sz = n => { const q = rnd.int(0, 2); return q === 0 ? { size: n } : q === 1 ? { size: [100, 100 + n] } : n % 2 === 0 ? { size: n / 2, factor: 2 } : { size: n }; };
  L.emit(Object.assign({ op: 'reset', cfg }, tag ? { tag } : {}));
  A.transform(cfg.at.map(real)); Bd.transform(cfg.bt.map(real));
  for (const c of cmds) {
    const e = Object.assign({}, c);
    try {
      if (c.op === 'vals') { const rows = c.rows.map(r => Object.assign({}, r)); if (rnd.bool(0.2)) A.values(JSON.stringify(rows), { type: 'json' }); else A.values(rows); }
      else if (c.op === 'look') Lk.values(c.rows.map(r => Object.assign({}, r)));
      else if (c.op === 'sig') { if (rnd.bool()) view.updateSignal('n', c.v); else view.getSignalById('n').value(c.v); }
      else if (c.op === 'at') A.transform(c.ts.map(real));
      else if (c.op === 'bt') Bd.transform(c.ts.map(real));
      else if (c.op === 'addf') { const f = c.f; filters[f.id] = { rank: f.rank, filter: rows => rows.filter(r => cmp[f.cmp](r[f.f], f.c)) }; A.addDataFilter(filters[f.id]); A.commit(); }
      else if (c.op === 'delf') { A.removeDataFilter(filters[c.id]); A.commit(); }
      else if (c.op === 'run') { view.run(); e.A = proj(A.getValue()); e.B = proj(Bd.output());
        const f = e.A.length && Object.keys(e.A[0])[0]; if (f && JSON.stringify(A.field(f).map(code)) !== JSON.stringify(e.A.map(r => (f in r ? r[f] : L.NAI)))) throw new Error('field() differs'); }
    } catch (err) { L.emit({ op: 'threw', msg: String(err && err.stack).slice(0, 300), cmd: c }); break; }
    L.emit(e);
  }
  L.dropView(view);
}
const FIX = { k: 1, g: 1, h: 1, v: 1, w: 1 };
function genRows(r, n, pos) { const ks = r.shuffle([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24]).slice(0, n);
  return ks.map(k => ({ k, g: r.int(1, 3), h: r.int(0, 1), v: pos ? r.int(1, 9) : r.int(-4, 9), w: r.int(0, 5) })); }
function relPipe(r, pre, maxLen) {
  let av = ['k', 'g', 'h', 'v', 'w'], out = [], used = 0, fold = false;
  const n = r.int(0, maxLen);
  const P = () => (r.bool(0.4) ? { s: 1 } : { c: r.int(-1, 5) });
  for (let i = 0; i < n && av.length; i++) {
    const f = () => r.pick(av);
    switch (r.pick(['filter', 'filter', 'sort', 'sort', 'map', 'mapall', 'pick', 'fold', 'unfold', 'join', 'range', 'id'])) {
      case 'filter': out.push({ t: 'filter', f: f(), cmp: r.pick(['gt', 'le', 'odd', 'ne']), p: P() }); break;
      case 'sort': { const fs = r.shuffle(av).slice(0, r.int(1, 3)); out.push({ t: 'sort', fs, os: fs.map(() => r.pick(['asc', 'desc'])).slice(0, r.int(0, fs.length)), fn: r.bool(0.25) }); break; }
      case 'map': if (used < 2) { const as = pre + ++used; out.push({ t: 'map', f: f(), p: P(), as }); av = [...av, as]; } break;
      case 'mapall': out.push({ t: 'mapall', how: r.pick(['rev', 'head']), p: P() }); break;
      case 'pick': { const fs = r.shuffle(av).slice(0, r.int(1, 4)); const to = r.bool() ? r.shuffle(['p', 'q', 'r', 'g']).slice(0, fs.length) : fs; out.push({ t: 'pick', fs, as: to }); av = to.slice(); break; }
      case 'fold': if (!fold && av.length >= 2) { fold = true; const fs = r.shuffle(av).slice(0, r.int(1, Math.min(3, av.length))); const rest = av.filter(x => !fs.includes(x)); const ret = rest.length && r.bool(0.4) ? r.shuffle(rest).slice(0, r.int(1, rest.length)) : [];
        const d = r.bool(); out.push({ t: 'fold', fs, askey: d ? 'key' : 'nm', asval: d ? 'value' : 'p', ret }); av = [...(ret.length ? ret : rest), d ? 'value' : 'p']; } break;
      case 'unfold': if (i === n - 1 && !fold && av.length >= 3 && av.includes('v') && av.every(x => FIX[x])) { const q = r.shuffle(av); const key = q.find(x => x !== 'v') || q[0]; const gb = q.filter(x => x !== key && x !== 'v').slice(0, r.int(0, 2)); out.push({ t: 'unfold', key, val: 'v', gb, agg: r.pick(['sum', 'min', 'max', 'count', 'mean']) }); av = []; } break;
      case 'join': if (used < 2 && av.some(x => FIX[x]) && i < 3) { const fs = r.shuffle(av.filter(x => x === 'g' || x === 'k')).slice(0, 2); if (!fs.length) break; const as = fs.map((_, j) => pre + (used + 1 + j)); if (used + fs.length > 3) break; used = 3;
        out.push({ t: 'join', key: r.pick(['k', 'g']), fs, vals: [r.pick(['v', 'w'])], as, def: r.pick([NULL, -7, 0]) }); } break;
      case 'range': if (i === 0 && r.bool(0.3)) { out.push({ t: 'range', lo: r.int(-2, 2), hi: r.bool() ? { s: 1 } : { c: r.int(0, 6) }, step: r.int(1, 3), as: 'v' }); av = ['v']; } break;
      case 'id': if (!fold && i === n - 1) { out.push({ t: 'id', as: 'id' + pre }); av = []; } break;
    }
  }
  return out;
}
const outs = (r, names, must = []) => { const o = {}; for (const n of names) if (must.includes(n) || r.bool(0.6)) o[n] = 'z' + n; return o; };
function layPipe(r, kind) {
  switch (kind) {
    case 'bin': { const lo = r.int(-4, 2), st = r.bool() ? r.int(1, 4) : 0; return { pos: false, n: r.int(0, 8), p: [{ t: 'bin', f: 'v', lo: { c: lo }, hi: r.bool(0.3) ? { s: 1 } : { c: r.int(5, 9) }, step: st, bins: r.bool(0.3) ? { s: 1 } : { c: r.int(1, 6) }, as: ['zlo', 'zhi'] }] }; }
    case 'pie': { const lo = r.pick([0, 0, 10, -90, 360]); return { pos: true, n: r.int(1, 7), p: [{ t: 'pie', f: 'v', lo, hi: lo + r.pick([360, 180, 100, -360, 7]), as: outs(r, ['start', 'end', 'mid', 'rad', 'ratio', 'k']) }] }; }
    case 'funnel': return { pos: true, n: r.int(1, 6), p: [{ t: 'funnel', f: 'v', cone: r.bool(), visual: r.bool(), max: r.pick([0, 10, 20]), as: outs(r, ['last', 'next', 'cur', 'tr', 'reach', 'h', 'vr', 'nvr', 'lvr'], ['vr']) }] };
    case 'stack': return { pos: false, n: r.int(0, 9), p: [{ t: 'stack', dim: r.pick(['g', 'h', 'k']), f: 'v', off: r.pick(['diverging', 'diverging', 'diverging', 'zero', 'silhouette']), neg: r.bool(0.3), as: outs(r, ['stack', 'prev', 'sum', 'pct', 'pstack', 'pprev'], r.bool(0.8) ? ['stack'] : []) }] };
    case 'sample': return { pos: false, n: r.int(3, 24), A: true, p: n => [{ t: 'sample', f: 'v', mode: r.pick(['min', 'max', 'sum', 'average']), gb: '', size: r.int(0, n + 1) }] };
    case 'sampleg': return { pos: false, n: 24, A: true, p: n => [{ t: 'sample', f: 'v', mode: r.pick(['min', 'max', 'sum', 'average']), gb: 'h', size: r.pick([2, 3, 4, 7, 10, 24]) }] };
    case 'lttb': return { pos: false, n: r.int(3, 24), p: n => [{ t: 'lttb', f: 'v', size: r.pick([Math.max(1, Math.floor(n / 2)), Math.max(1, Math.floor(n / 4)), 3, 5, n, 0, n - 1]) }] };
  }
}
function main() {
  const prop = process.env.VG_PROP, quick = L.quick;
  L.behaviours().forEach((ops, i) => exec(ops[0].cfg, ops.slice(1), L.rng(L.seed * 3000 + i)));
  if (prop === 'T01') {
    const N = quick ? 700 : 12000;
    for (let i = 0; i < N; i++) {
      const r = L.rng(L.seed * 7919 + i);
      const cfg = { at: relPipe(r, 'a', 3), bt: relPipe(r, 'b', 4), sig: r.int(0, 4) };
      // B reads the rows of A: only base fields may be used when A keeps them
      const keeps = ts => ts.every(t => ['filter', 'sort', 'map', 'mapall', 'join', 'id'].includes(t.t));
      if (!keeps(cfg.at)) cfg.bt = [];
      const cmds = [{ op: 'vals', rows: genRows(r, r.int(0, 7)) }, { op: 'look', rows: genRows(r, r.int(0, 6)).map(x => Object.assign(x, { k: r.int(1, 6) })) }, { op: 'run' }];
      let fid = 0; const live = [];
      const m = r.int(1, 4);
      for (let q = 0; q < m; q++) {
        const w = r.int(0, 7);
        if (w === 0) cmds.push({ op: 'vals', rows: genRows(r, r.int(0, 7)) });
        else if (w === 1) cmds.push({ op: 'look', rows: genRows(r, r.int(0, 6)) });
        else if (w <= 3) cmds.push({ op: 'sig', v: r.int(-1, 6) });
        else if (w === 4 && cfg.bt.length) { cmds.push({ op: 'bt', ts: relPipe(r, 'b', 4) }); }
        else if (w === 5) { cmds.push({ op: 'addf', f: { id: ++fid, rank: r.int(0, 2), f: keeps(cfg.at) ? 'v' : 'zz', cmp: 'ne', c: r.int(-2, 6) } }); live.push(fid); }
        else if (w === 6 && live.length) cmds.push({ op: 'delf', id: live.splice(r.int(0, live.length - 1), 1)[0] });
        if (r.bool(0.7)) cmds.push({ op: 'run' });
      }
      cmds.push({ op: 'run' });
      exec(cfg, cmds, r);
    }
  } else {
    const N = quick ? 1000 : 16000;
    for (let i = 0; i < N; i++) {
      const r = L.rng(L.seed * 104729 + i);
      const kind = r.pick(['bin', 'pie', 'funnel', 'stack', 'stack', 'sample', 'sampleg', 'lttb', 'lttb']);
      const d = layPipe(r, kind);
      const p = typeof d.p === 'function' ? d.p(d.n) : d.p;
      const cfg = d.A ? { at: p, bt: [], sig: 5 } : { at: r.bool(0.5) ? [{ t: 'sort', fs: ['k'], os: [r.pick(['asc', 'desc'])], fn: false }] : [], bt: p, sig: 5 };
      const cmds = [];
      for (let q = r.int(1, 3); q > 0; q--) { if (cmds.length && r.bool()) cmds.push({ op: 'sig', v: r.int(5, 9) }); cmds.push({ op: 'vals', rows: genRows(r, q > 1 && !d.A ? r.int(1, 8) : d.n, d.pos) }, { op: 'run' }); }
      exec(cfg, cmds, r);
    }
    exec({ at: [], bt: [{ t: 'stack', dim: 'g', f: 'v', off: 'wiggle', neg: false, as: { stack: 'zs', prev: 'zp' } }], sig: 1 },
      [{ op: 'vals', rows: [{ k: 1, g: 1, h: 0, v: 3, w: 0 }, { k: 2, g: 1, h: 0, v: 6, w: 0 }, { k: 3, g: 1, h: 0, v: 1, w: 0 }] }, { op: 'run' }], L.rng(1), 'stack-wiggle');
  }
  L.done();
}
main();
