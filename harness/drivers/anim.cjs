// Animation life cycle: rows, forced and one-off animations, stop, disable, pause, changed configurations, frames.
const L = require('../lib.cjs');
const NAMES = { animationStart: 'start', animationEnd: 'end', elementAnimationStart: 'elStart', elementAnimationEnd: 'elEnd', allAnimationStart: 'allStart', allAnimationEnd: 'allEnd' };
const FX = { enter: { type: 'fadeIn' }, update: { type: 'update' }, exit: { type: 'fadeOut' }, hey: { channel: { y: { from: 0, to: 50 } } }, hop: { channel: { x: { from: 0, to: (d) => d.x } } } };
const toCfg = c => Object.assign({ tag: c.tag, duration: c.dur, delay: c.delay, delayAfter: c.after, startTime: c.start, oneByOne: c.obo || false, loop: c.n > 1 ? c.n : false, easing: 'linear', controlOptions: { stopWhenStateChange: c.stop } }, FX[c.fx]);
const toConfs = cs => { const o = {}; for (const c of cs) { (o[c.st] = o[c.st] || []).push(toCfg(c)); } for (const k in o) if (o[k].length === 1 && o[k][0].duration % 20 === 0) o[k] = o[k][0]; return o; };
function exec(beh) {
  L.mark(beh);
  const cfg = beh[0].cfg;
  const view = L.mkView({ width: 100, height: 100 });
  L.emit({ op: 'reset', cfg });
  try {
    const ms = Object.keys(cfg.conf);
    let log = [];
    for (const n in NAMES) view.addEventListener(n, (ev, el) => log.push({ ev: NAMES[n], m: ev.mark ? L.S(ev.mark.id()) : '', st: L.S(ev.animationState || ''), tag: L.S((ev.animationConfig && ev.animationConfig.tag) || ''), k: el ? L.S(el.key) : '' }));
    view.parseSpec({ data: ms.map(m => ({ id: 'd' + m, values: [] })),
      marks: ms.map(m => ({ type: 'symbol', id: m, from: { data: 'd' + m }, key: 'k', encode: { update: { x: { field: 'x' }, y: 50, size: 5, fillOpacity: 1 } }, animation: toConfs(cfg.conf[m]), animationState: (d, el) => (el.diffState !== 'exit' && d.s ? d.s : undefined) })) });
    view.run();
    const marks = {}; for (const m of ms) marks[m] = view.getMarkById(m);
    for (let i = 0; i < 3; i++) L.clock.frame(20);
    log = [];
    for (const e of beh.slice(1)) {
      const m = marks[e.m], A = m && m.animate;
      if (e.op === 'rows') { view.getDataById('d' + e.m).values(e.rows.map(r => Object.assign({}, r))); view.run(); }
      else if (e.op === 'by') A.runAnimationByState(e.st);
      else if (e.op === 'imm') A.run(e.confs.length === 1 ? toCfg(e.confs[0]) : e.confs.map(toCfg));
      else if (e.op === 'stop') A.stop();
      else if (e.op === 'stopBy') A.stopAnimationByState(e.st);
      else if (e.op === 'stopAll') view.animate.stop();
      else if (e.op === 'off') A.disable();
      else if (e.op === 'on') A.enable();
      else if (e.op === 'dis') A.disableAnimationState(e.st);
      else if (e.op === 'en') A.enableAnimationState(e.st);
      else if (e.op === 'conf') m.animation(toConfs(e.confs));
      else if (e.op === 'pause') view.animate.pause();
      else if (e.op === 'resume') view.animate.resume();
      else if (e.op === 'frame') { for (let i = 0; i < e.dt / 20; i++) L.clock.frame(20); }
      const obs = { els: {}, anim: {}, any: L.B(view.animate.isAnimating()) };
      for (const n of ms) {
        const K = marks[n];
        obs.anim[n] = L.B(K.animate.isAnimating());
        obs.els[n] = K.getAllElements().map(el => {
          const g = el.getGraphicItem(), a = g.attribute, c = K.animate.getElementAnimators(el).length;
          return { k: L.S(el.key), ds: L.S(el.diffState), n: c, busy: L.B(K.animate.isElementAnimating(el)), scene: K.graphicItem ? K.graphicItem.children.includes(g) || L.B(g.parent) : L.B(g.parent && g.stage), x: c ? -1 : L.I(a.x), y: c ? -1 : L.I(a.y), op: c ? -1 : L.FX(a.fillOpacity) };
        });
      }
      L.emit(Object.assign({}, e, { ev: log, obs }));
      log = [];
    }
  } catch (err) { L.emit({ op: 'threw', ev: [], msg: String(err && err.stack).slice(0, 500) }); }
  const tk = view.renderer && view.renderer.stage() && view.renderer.stage().ticker;
  L.dropView(view);
  for (let i = 0; i < 4; i++) L.clock.frame(20);
  if (tk) { if (process.env.DBG && tk.status) process.stderr.write('stuck ' + JSON.stringify(beh.slice(1)).slice(0, 300) + tk.timelines.map(t => t.animateCount) + '\n'); tk.stop(); }
}
for (const b of L.behaviours()) exec(b);
const r = L.rng(L.seed + 11);
const total = L.quick ? 500 : 6000;
for (let t = 0; t < total; t++) {
  let nTag = 0;
  const two = r.bool(0.4);
  const conf = (st, fx, rich, idx) => ({ st, fx, id: st + '#' + (idx ?? nTag), tag: st + nTag++, dur: r.pick([40, 60, 100, 105, 145]), delay: r.bool(0.2) ? 40 : 0, after: r.bool(0.1) ? 40 : 0, start: rich && r.bool(0.2) ? 60 : 0, obo: r.bool(0.2) ? 30 : 0, n: r.bool(0.12) ? 2 : 1, stop: r.bool(0.25) });
  const confs = () => { const o = []; for (const st of ['enter', 'update', 'exit', 'hey']) if (r.bool(0.75)) { o.push(conf(st, st, true, 0)); if (st !== 'update' && r.bool(0.2)) o.push(conf(st, st === 'hey' ? 'hop' : st, true, 1)); } if (!o.length) o.push(conf('enter', 'enter', true, 0)); return o; };
  const cfg = { conf: { m: confs() } };
  if (two) cfg.conf.w = confs();
  const ms = Object.keys(cfg.conf);
  const rows = () => r.shuffle(['a', 'b', 'c', 'd']).slice(0, r.int(0, 4)).map(k => ({ k, x: r.int(1, 99), s: r.bool(0.15) ? 'hey' : '' }));
  const beh = [{ op: 'reset', cfg }, { op: 'rows', m: 'm', rows: rows() }];
  const n = r.int(6, 22);
  let paused = false, settled = 0;
  const fr = dt => { beh.push({ op: 'frame', dt }); settled += dt; };
  const toggle = r.bool(0.2), tst = r.pick(['enter', 'exit', 'update']);
  for (let i = 0; i < n; i++) {
    let p = r(); const m = r.pick(ms);
    if (toggle && p > 0.56) { beh.push({ op: r.pick(['dis', 'dis', 'en']), m, st: r.bool(0.8) ? tst : 'hey' }); continue; }
    if (paused) { fr(r.pick([20, 100, 300])); beh.push({ op: 'resume' }); paused = false; continue; }
    if (p < 0.3) { beh.push({ op: 'rows', m, rows: rows() }); settled = 0; }
    else if (p < 0.56) fr(r.pick([20, 20, 40, 60, 100, 160, 700]));
    else if (p < 0.64) { beh.push({ op: 'by', m, st: r.pick(['hey', 'hey', 'nope']) }); settled = 0; }
    else if (p < 0.74) { beh.push({ op: 'imm', m, confs: r.bool(0.7) ? [conf('VGRAMMAR_IMMEDIATE_ANIMATION', r.pick(['hey', 'hop']), true)] : [conf('VGRAMMAR_IMMEDIATE_ANIMATION', 'hey'), conf('VGRAMMAR_IMMEDIATE_ANIMATION', 'hop')] }); settled = 0; }
    else if (p < 0.78) beh.push({ op: 'stop', m });
    else if (p < 0.81) beh.push({ op: 'stopBy', m, st: r.pick(['enter', 'exit', 'update', 'hey']) });
    else if (p < 0.83) beh.push({ op: 'stopAll' });
    else if (p < 0.86) beh.push({ op: 'off', m });
    else if (p < 0.9) beh.push({ op: 'on', m });
    else if (p < 0.93) beh.push({ op: 'dis', m, st: r.pick(['enter', 'exit', 'update', 'hey']) });
    else if (p < 0.96) beh.push({ op: 'en', m, st: r.pick(['enter', 'exit', 'update', 'hey']) });
    else if (p < 0.98) { beh.push({ op: 'conf', m, confs: confs() }); }
    else if (settled >= 100) { beh.push({ op: 'pause' }); paused = true; }
  }
  fr(2000);
  exec(beh);
}
L.done();
