// Bundles /repo's current TypeScript sources (never build products) into one CommonJS file.
import { build } from '/opt/veriftools/node/node_modules/esbuild/lib/main.js';
import fs from 'node:fs';
import path from 'node:path';
const REPO = process.env.VG_REPO || '/repo';
const out = process.argv[2];
const P = path.join(REPO, 'packages');
const alias = {};
for (const d of fs.readdirSync(P)) {
  const idx = path.join(P, d, 'src/index.ts');
  if (fs.existsSync(idx)) alias['@visactor/' + d] = idx;
}
const vrcore = fs.realpathSync(path.join(P, 'vgrammar-core/node_modules/@visactor/vrender-core'));
await build({
  entryPoints: [new URL('./entry.ts', import.meta.url).pathname],
  bundle: true, platform: 'node', format: 'cjs', outfile: out, external: ['canvas'],
  define: { __VERSION__: '"verif"', __DEV__: 'true' }, logLevel: 'error', mainFields: ['module', 'main'],
  nodePaths: [path.join(P, 'vgrammar-core/node_modules')],
  tsconfigRaw: { compilerOptions: { target: 'es2020', experimentalDecorators: true, useDefineForClassFields: false } },
  plugins: [{ name: 'alias', setup(b) {
    b.onResolve({ filter: /^@visactor\/vgrammar/ }, a => (alias[a.path] ? { path: alias[a.path] } : undefined));
    b.onResolve({ filter: /^@visactor\/vrender-core$/ }, a => a.importer.endsWith('/entry.ts') ? b.resolve('@visactor/vrender-core', { resolveDir: path.join(P, 'vgrammar-core/src'), kind: a.kind }) : undefined);
  } }]
});
