// Bundles a package of /repo's current working tree with esbuild into this run's scratch directory.
import { createRequire } from 'node:module';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
export const REPO = process.env.VERIF_REPO || '/repo';
const NM = '/opt/veriftools/node/node_modules';
const req = createRequire(import.meta.url);
const esbuild = req(NM + '/esbuild');
export const nm = name => req(NM + '/' + name);
let dir;
export function scratch() {
  if (!dir) {
    dir = process.env.VERIF_SCRATCH || fs.mkdtempSync(path.join(os.tmpdir(), 'verif-'));
    if (!process.env.VERIF_SCRATCH) process.on('exit', () => fs.rmSync(dir, { recursive: true, force: true }));
  }
  return dir;
}
export class BuildError extends Error { }
const packages = () => fs.readdirSync(path.join(REPO, 'packages'));
const built = new Map();
export function buildEntry(name, contents, opts = {}) {
  if (built.has(name)) return built.get(name);
  const out = path.join(scratch(), name.replace(/[^\w]/g, '_') + '.cjs');
  const alias = { tslib: NM + '/tslib/tslib.es6.js' };
  for (const p of packages()) alias['@curong/' + p] = path.join(REPO, 'packages', p, 'src');
  try {
    esbuild.buildSync({
      stdin: { contents, resolveDir: REPO, loader: 'ts', sourcefile: name + '.ts' }, bundle: true, platform: 'node', format: 'cjs',
      target: 'node20', outfile: out, alias, logLevel: 'silent', sourcemap: false, keepNames: true, ...opts,
      tsconfigRaw: { compilerOptions: { target: 'ESNext', alwaysStrict: true } }, // the published modules are strict code
    });
  } catch (e) { throw new BuildError('cannot build ' + name + ': ' + e.message); }
  built.set(name, out);
  return out;
}
// public modules that the package index does not re-export
const EXTRA = { function: ['cache/index.ts', 'class/index.ts'], util: ['stringify.ts'], number: ['amount/index.ts'] };
const entry = pkg => ['index.ts', ...(EXTRA[pkg] || []).map(d => d)].map(f => path.join(REPO, 'packages', pkg, 'src', f)).filter((f, i) => i === 0 || fs.existsSync(f)).map(f => `export * from ${JSON.stringify(f)};`).join('\n');
/** fresh instance of a package (module-level state starts anew) */
export function load(pkg, { fresh = true } = {}) {
  const out = buildEntry('pkg_' + pkg, entry(pkg));
  if (fresh) delete req.cache[out];
  return req(out);
}
/** several packages sharing module instances */
export function loadMany(pkgs) {
  const name = 'many_' + pkgs.join('_');
  const out = buildEntry(name, pkgs.map(p => `export * as ${p} from ${JSON.stringify(path.join(REPO, 'packages', p, 'src/index.ts'))};`).join('\n'));
  delete req.cache[out];
  return req(out);
}
