// Shared by all drivers: browser environment, deterministic clock, seeded RNG, trace writer.
'use strict';
const fs = require('fs');
const REPO = process.env.VG_REPO || '/repo';
const PN = REPO + '/common/temp/node_modules/.pnpm/';
require(PN + 'canvas@2.11.2/node_modules/canvas');
const { JSDOM } = require(PN + 'jsdom@20.0.3_canvas@2.11.2/node_modules/jsdom');
const dom = new JSDOM('<html><body></body></html>', { pretendToBeVisual: false });
global.window = dom.window;
for (const k of ['document', 'navigator', 'HTMLElement', 'Image', 'CanvasRenderingContext2D', 'MouseEvent', 'Event']) {
  try { if (dom.window[k]) global[k] = dom.window[k]; } catch (e) { /* readonly */ }
}
// ---- deterministic animation frames and clock
const clock = { now: 1000, q: [], id: 0 };
const raf = f => { clock.q.push({ id: ++clock.id, f }); return clock.id; };
const caf = id => { clock.q = clock.q.filter(x => x.id !== id); };
dom.window.requestAnimationFrame = global.requestAnimationFrame = raf;
dom.window.cancelAnimationFrame = global.cancelAnimationFrame = caf;
Date.now = () => clock.now;
try { global.performance.now = () => clock.now; } catch (e) { /* */ }
try { Object.defineProperty(dom.window.performance, 'now', { value: () => clock.now }); } catch (e) { /* */ }
clock.frame = dt => { // an error of one callback must not lose the others
  clock.now += dt; const q = clock.q; clock.q = []; let err;
  for (const x of q) { try { x.f(clock.now); } catch (e) { err = err || e; } }
  if (err) throw err;
  return q.length;
};
for (const k of ['warn', 'error', 'info', 'debug', 'log']) { if (!process.env.VG_VERBOSE) console[k] = () => {}; }
const V = require(process.env.VG_BUNDLE);
V.initBrowserEnv();
let views = [];
function mkView(opts = {}) {
  const c = dom.window.document.createElement('div');
  dom.window.document.body.appendChild(c);
  Object.defineProperty(c, 'clientWidth', { value: opts.width ?? 400, configurable: true });
  Object.defineProperty(c, 'clientHeight', { value: opts.height ?? 300, configurable: true });
  const v = new V.View(Object.assign({ width: 400, height: 300, container: c, mode: 'browser', logLevel: 0 }, opts));
  v.__c = c;
  return v;
}
function dropView(v) { try { v.release(); } catch (e) { /* judged elsewhere */ } if (v.__c) v.__c.remove(); }
// ---- rng (mulberry32)
function rng(seed) {
  let a = (seed * 2654435761) >>> 0;
  const r = () => { a = (a + 0x6d2b79f5) | 0; let t = Math.imul(a ^ (a >>> 15), 1 | a); t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t; return ((t ^ (t >>> 14)) >>> 0) / 4294967296; };
  r.int = (lo, hi) => lo + Math.floor(r() * (hi - lo + 1));
  r.pick = xs => xs[Math.floor(r() * xs.length)];
  r.bool = (p = 0.5) => r() < p;
  r.shuffle = xs => { const a = xs.slice(); for (let i = a.length - 1; i > 0; i--) { const j = r.int(0, i); [a[i], a[j]] = [a[j], a[i]]; } return a; };
  r.subset = (xs, p = 0.5) => xs.filter(() => r() < p);
  return r;
}
// ---- type-stable projections
const NAI = -99999999;
const I = x => (typeof x === 'boolean' ? (x ? 1 : 0) : typeof x === 'number' && isFinite(x) && Math.abs(x) < 2e9 && Number.isInteger(x) ? x : NAI);
const FX = (x, k = 1000) => (typeof x === 'number' && isFinite(x) && Math.abs(x * k) < 2e9 ? Math.round(x * k) : NAI);
const S = x => (typeof x === 'string' ? x : String(x === undefined ? 'undefined' : typeof x === 'symbol' ? x.toString() : x));
const B = x => !!x;
const arg = (name, d) => { const i = process.argv.indexOf('--' + name); return i < 0 ? d : process.argv[i + 1]; };
const seed = +(process.env.VERIF_SEED || 1);
const tier = process.env.VG_TIER || 'quick';
const outFile = process.env.VG_TRACE;
const opsFile = process.env.VG_OPS;
let fd = null, nLines = 0, nBeh = 0, buf = [];
function emit(o) {
  if (fd === null) fd = fs.openSync(outFile, 'w');
  if (o.op === 'reset') nBeh++;
  buf.push(JSON.stringify(o)); nLines++;
  if (buf.length > 200) flush();
}
function flush() { if (fd !== null && buf.length) { fs.writeSync(fd, buf.join('\n') + '\n'); buf = []; } }
// progress marker so that a hang in the code under test can be attributed
const mark = o => { flush(); fs.writeFileSync(outFile + '.cur', JSON.stringify(o)); };
function behaviours() { // behaviours generated by TLC: one JSON array of operations per line
  if (!opsFile || !fs.existsSync(opsFile)) return [];
  return fs.readFileSync(opsFile, 'utf8').split('\n').filter(Boolean).map(l => JSON.parse(l));
}
const stats = {};
function done(extra) {
  flush(); if (fd !== null) fs.closeSync(fd); else fs.writeFileSync(outFile, '');
  fs.writeFileSync(outFile + '.stats', JSON.stringify(Object.assign({ lines: nLines, behaviours: nBeh }, stats, extra)));
  process.exit(0);
}
process.on('uncaughtException', e => { flush(); fs.writeFileSync(outFile + '.err', String(e && e.stack)); process.exit(3); });
module.exports = { V, dom, clock, mkView, dropView, rng, I, FX, S, B, NAI, arg, seed, tier, emit, mark, behaviours, done, stats, flush, quick: tier === 'quick' };
