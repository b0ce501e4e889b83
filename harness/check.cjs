// Runs one property's check: model checking of the TLA+ specification, generation of behaviours from it,
// execution of those behaviours (and seeded ones) on the code in /repo, and trace validation with TLC.
'use strict';
const fs = require('fs'), path = require('path'), os = require('os'), cp = require('child_process');
const VERIF = path.resolve(__dirname, '..');
const NODE18 = '/opt/node/node_modules/.bin/node';
const CPATH = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar';
const [, , prop, tierArg] = process.argv;
const tier = tierArg === 'thorough' ? 'thorough' : 'quick';
const props = require('./props.cjs');
const cfg = props[prop];
if (!cfg) { console.error('unknown property ' + prop); process.exit(2); }
const seed = +(process.env.VERIF_SEED || 1);
const t0 = Date.now();
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'vg-' + prop + '-'));
const outDir = path.join(VERIF, 'out', prop);
const kids = new Set();
const cleanup = () => { for (const k of kids) { try { process.kill(-k.pid, 'SIGKILL'); } catch (e) { /* gone */ } } if (!process.env.VG_KEEP) fs.rmSync(tmp, { recursive: true, force: true }); };
process.on('exit', cleanup);
for (const s of ['SIGTERM', 'SIGINT']) process.on(s, () => process.exit(2));
const log = (...a) => console.log(`[${((Date.now() - t0) / 1000).toFixed(1)}s]`, ...a);
class Unable extends Error {}

function run(cmd, args, { env = {}, cwd = tmp, timeout = 600000 } = {}) {
  return new Promise(res => {
    const k = cp.spawn(cmd, args, { cwd, env: Object.assign({}, process.env, env), detached: true, stdio: ['ignore', 'pipe', 'pipe'] });
    kids.add(k);
    let out = '', err = '', timedOut = false;
    k.stdout.on('data', d => { if (out.length < 5e7) out += d; });
    k.stderr.on('data', d => { if (err.length < 5e6) err += d; });
    const t = setTimeout(() => { timedOut = true; try { process.kill(-k.pid, 'SIGKILL'); } catch (e) { /* */ } }, timeout);
    k.on('close', (code, sig) => { clearTimeout(t); kids.delete(k); res({ code, sig, out, err, timedOut }); });
  });
}
const specDir = path.join(tmp, 'spec');
let tlcN = 0;
function tlc(mod, cfgFile, { args = [], env = {}, workers = 1, mem = '2g', timeout, jvm = [] } = {}) {
  const meta = path.join(tmp, 'meta' + tlcN++);
  const fast = workers === 1 ? ['-XX:+UseSerialGC'] : ['-XX:+UseParallelGC'];
  return run('java', [...fast, '-XX:TieredStopAtLevel=4', '-Xss16m', '-Xmx' + mem, ...jvm, '-cp', CPATH, 'tlc2.TLC', '-metadir', meta, '-workers', String(workers),
    '-noGenerateSpecTE', '-deadlock', '-config', cfgFile, ...args, mod + '.tla'], { cwd: specDir, env, timeout });
}
const unq = l => { l = l.trim(); return l[0] === '"' ? JSON.parse(l) : l; };
const stateCounts = out => {
  const m = [...out.matchAll(/(\d[\d,]*) states generated(?: \([^)]*\))?, (\d[\d,]*) distinct states found/g)].pop();
  return m ? [+m[1].replace(/,/g, ''), +m[2].replace(/,/g, '')] : [0, 0];
};
const pickTier = (o, k, d) => (o[k + '_' + tier] ?? o[k] ?? d);

async function modelCheck(m) {
  const c = pickTier(m, 'cfg');
  const r = await tlc(m.mod, c, { workers: pickTier(m, 'workers', 2), mem: m.mem || '4g', timeout: pickTier(m, 'timeout', tier === 'quick' ? 240000 : 700000), args: m.args || [] });
  if (r.timedOut) throw new Unable(`model checking ${m.mod}/${c} timed out`);
  if (r.code !== 0) { fs.writeFileSync(path.join(outDir, `mc-${m.mod}.log`), r.out + r.err); throw new Unable(`model checking ${m.mod}/${c} failed: exit ${r.code}\n` + r.out.slice(-1500)); }
  const [gen, dist] = stateCounts(r.out);
  return { module: m.mod, cfg: c, states: dist, transitions: gen };
}
async function generate(g, i) {
  const f = path.join(tmp, `gen${i}.ndjson`);
  const args = [];
  if (g.simulate) args.push('-simulate', `num=${pickTier(g, 'num', 200)}`, '-depth', String(pickTier(g, 'depth', 20)), '-seed', String(seed + 17 * i));
  const r = await tlc(g.mod, pickTier(g, 'cfg'), { args, env: { OPSOUT: f }, timeout: 400000, mem: '3g' });
  if (r.timedOut || (r.code !== 0 && !(g.simulate && r.code === 0))) throw new Unable(`generation ${g.mod} failed (${r.code})\n` + r.out.slice(-1500));
  let lines = fs.existsSync(f) ? fs.readFileSync(f, 'utf8').split('\n').filter(Boolean) : [];
  // CSVWrite may quote; undo
  lines = lines.map(unq).map(l => l.replace(/\]$/, '')).sort();
  // keep only maximal behaviours (drop a behaviour that is a prefix of the next one)
  const keep = [];
  for (let j = 0; j < lines.length; j++) if (!(lines[j + 1] && lines[j + 1].startsWith(lines[j]) && /^(,|$)/.test(lines[j + 1].slice(lines[j].length)))) keep.push(lines[j] + ']');
  const max = pickTier(g, 'max', 100000);
  let sel = keep;
  if (keep.length > max) { const step = keep.length / max; sel = []; for (let j = 0; j < max; j++) sel.push(keep[Math.floor(j * step + (seed % step))]); }
  const [gen, dist] = stateCounts(r.out);
  return { lines: sel, total: keep.length, states: dist, transitions: gen };
}
function knownFindings() {
  const f = path.join(VERIF, 'known-findings.txt');
  if (!fs.existsSync(f)) return [];
  return fs.readFileSync(f, 'utf8').split('\n').map(l => /^finding: property=(\S+) key=(\S+) (.*)$/.exec(l)).filter(Boolean).map(m => ({ property: m[1], key: m[2], what: m[3] }));
}

async function main() {
  fs.rmSync(outDir, { recursive: true, force: true });
  fs.mkdirSync(outDir, { recursive: true });
  fs.cpSync(path.join(VERIF, 'spec'), specDir, { recursive: true });
  const bundle = path.join(tmp, 'bundle.cjs');
  const b = await run('node', [path.join(VERIF, 'harness/bundle.mjs'), bundle], { timeout: 120000 });
  if (b.code !== 0) throw new Unable('cannot bundle /repo: ' + b.err.slice(-2000));
  log('bundled');
  const mcP = Promise.all((cfg.mc || []).map(modelCheck)); mcP.catch(() => {});
  const gens = await Promise.all((cfg.gen || []).map(generate));
  if (gens.length) log('generated', gens.map(g => `${g.lines.length}/${g.total}`).join(' '));
  // ---- drivers
  const violations = [];
  const drivers = cfg.drivers || [{ driver: cfg.driver, trace: cfg.trace, cfg: cfg.traceCfg }];
  let gi = 0, totalLines = 0, totalBeh = 0, tStates = 0, samples = [], kfSeen = new Set(), kinds = {};
  const kf = knownFindings().filter(k => k.property === prop);
  await Promise.all(drivers.map(async (d, di) => {
    const ops = path.join(tmp, `ops${di}.ndjson`);
    const gsel = d.gen ? d.gen.map(i => gens[i]) : drivers.length === 1 ? gens : [];
    if (gsel.length) fs.writeFileSync(ops, gsel.map(g => g.lines.join('\n')).join('\n') + '\n');
    const trace = path.join(tmp, `trace${di}.ndjson`);
    const r = await run(NODE18, ['--stack-size=4000', '--max-old-space-size=4096', path.join(VERIF, 'harness/drivers', d.driver + '.cjs')], {
      env: { VG_BUNDLE: bundle, VG_TIER: tier, VG_TRACE: trace, VG_OPS: gsel.length ? ops : '', VERIF_SEED: String(seed), VG_PROP: prop, NODE_PATH: '' },
      timeout: pickTier(d, 'timeout', tier === 'quick' ? 240000 : 700000) });
    const cur = fs.existsSync(trace + '.cur') ? fs.readFileSync(trace + '.cur', 'utf8') : '{}';
    if (r.timedOut) violations.push({ kind: 'hang', driver: d.driver, at: JSON.parse(cur) });
    else if (r.code !== 0) violations.push({ kind: 'crash', driver: d.driver, code: r.code, sig: r.sig, at: JSON.parse(cur), err: fs.existsSync(trace + '.err') ? fs.readFileSync(trace + '.err', 'utf8') : r.err.slice(-3000) });
    log(`driver ${d.driver} exit ${r.code}`);
    if (!fs.existsSync(trace)) return;
    const all = fs.readFileSync(trace, 'utf8').split('\n').filter(Boolean);
    if (r.timedOut || r.code !== 0) { try { JSON.parse(all[all.length - 1] || '{}'); } catch (e) { all.pop(); } }
    if (fs.existsSync(trace + '.stats')) { const st = JSON.parse(fs.readFileSync(trace + '.stats', 'utf8')); for (const k in st) if (typeof st[k] === 'number') kinds[k] = (kinds[k] || 0) + st[k]; else kinds[k] = st[k]; }
    if (!all.length) { if (r.code === 0) throw new Unable('driver produced no trace'); return; }
    // ---- split at behaviour boundaries and validate in parallel
    const starts = [];
    all.forEach((l, i) => { if (l.startsWith('{"op":"reset"')) starts.push(i); });
    totalLines += all.length; totalBeh += starts.length;
    all.forEach((l, i) => { const m = /^\{"op":"(\w+)"/.exec(l); if (m) kinds['op:' + m[1]] = (kinds['op:' + m[1]] || 0) + 1; });
    for (const q of [0, Math.floor(starts.length / 2)]) samples.push(all.slice(starts[q], Math.min(starts[q] + 6, starts[q + 1] ?? all.length)).map(x => x.slice(0, 400)));
    const nCh = Math.max(1, Math.min(pickTier(d, 'chunks', 6), Math.ceil(all.length / 400)));
    const per = Math.ceil(all.length / nCh);
    const chunks = []; let from = 0;
    for (const s of [...starts.slice(1), all.length]) if (s - from >= per || s === all.length) { if (s > from) chunks.push([from, s]); from = s; }
    await Promise.all(chunks.map(async ([a, z], ci) => {
      const f = path.join(tmp, `tr${di}_${ci}.ndjson`), bad = path.join(tmp, `bad${di}_${ci}.ndjson`);
      fs.writeFileSync(f, all.slice(a, z).join('\n') + '\n');
      const v = await tlc(d.trace, d.cfg || d.trace + '.cfg', { env: { TRACE: f, BADOUT: bad, VG_PROP: prop }, mem: '3g', timeout: tier === 'quick' ? 400000 : 800000 });
      if (v.timedOut) throw new Unable('trace validation timed out');
      const [gen, dist] = stateCounts(v.out); tStates += dist;
      const lines = fs.existsSync(bad) ? [...new Set(fs.readFileSync(bad, 'utf8').split('\n').filter(Boolean))] : [];
      const behOf = li => { let s = 0; for (const x of starts) if (x <= li) s = x; else break; return s; };
      for (const l of lines) {
        const o = JSON.parse(unq(l)); const li = a + o.line - 1; const s = behOf(li);
        violations.push({ kind: 'mismatch', driver: d.driver, spec: d.trace, behaviour: all.slice(s, li + 1).map(x => JSON.parse(x)), expected: o.exp, observed: JSON.parse(all[li]) });
      }
      if (v.code !== 0 || !/Model checking completed|No error has been found/.test(v.out)) {
        fs.writeFileSync(path.join(outDir, `trace-${di}-${ci}.log`), v.out + v.err);
        if (/OutOfMemory|StackOverflow|Parsing or semantic|Semantic errors|Could not parse/i.test(v.out + v.err)) throw new Unable('trace validation could not run: ' + v.out.slice(-1500));
        if (!lines.length) {
          // the specification cannot even evaluate the observation (or an invariant fails in it): judged a violation at the last line reached
          const reached = Math.max(0, dist - 1);
          const li = Math.min(a + Math.max(reached, 0), z - 1); const s = behOf(li);
          violations.push({ kind: /is violated/.test(v.out) ? 'invariant' : 'untyped-observation', driver: d.driver, spec: d.trace, behaviour: all.slice(s, li + 1).map(x => JSON.parse(x)), tlc: v.out.split('\n').filter(x => /Error|violated/.test(x)).slice(0, 5).join(' | ') });
        }
      } else if (dist < z - a) throw new Unable(`trace validation stopped early: ${dist} states for ${z - a} lines`);
    }));
  }));
  log('validated', totalLines, 'lines');
  const mc = await mcP;
  // ---- classify
  const real = [];
  for (const v of violations) {
    const tag = v.behaviour && v.behaviour[0] && v.behaviour[0].tag;
    const hit = tag && kf.find(k => k.key === tag);
    if (hit) kfSeen.add(hit); else real.push(v);
  }
  for (const k of kf) if (kfSeen.has(k)) console.log(`KNOWN-FINDING: property=${prop} ${k.what}`);
  const sum = (xs, k) => xs.reduce((s, x) => s + x[k], 0);
  const coverage = { states: sum(mc, 'states') + sum(gens, 'states') + tStates, transitions: sum(mc, 'transitions') + sum(gens, 'transitions') + totalLines,
    traces_validated_against_impl: totalBeh, trace_lines: totalLines, model_runs: mc, generated_behaviours: gens.map(g => ({ used: g.lines.length, of: g.total, states: g.states })), op_counts: kinds,
    samples: samples.slice(0, 4) };
  const ev = { property: prop, tier, seed, level: cfg.level || 'model_checking', coverage, wall_s: (Date.now() - t0) / 1000, assumptions: cfg.assumptions || [], violations: real.length };
  fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
  const evKeys = props.evidenceShape ? props.evidenceShape(ev, real, outDir) : ev;
  real.slice(0, 20).forEach((v, i) => fs.writeFileSync(path.join(outDir, `replay-${i + 1}.json`), JSON.stringify(v, null, 1)));
  fs.writeFileSync(path.join(VERIF, 'evidence', prop + '.json'), JSON.stringify(evKeys, null, 1));
  if (real.length) {
    const v = real[0];
    console.log(`${real.length} violation(s); first: ${v.kind} ${JSON.stringify({ exp: v.expected, obs: v.observed || v.at, err: v.err, tlc: v.tlc }).slice(0, 1500)}`);
    console.log(`VIOLATION property=${prop} replay=${path.join(outDir, 'replay-1.json')}`);
    process.exit(1);
  }
  log(`${prop} ok: ${totalBeh} behaviours, ${totalLines} steps, ${coverage.states} states`);
  process.exit(0);
}
main().catch(e => { console.error(e instanceof Unable ? 'UNABLE: ' + e.message : e); process.exit(2); });
