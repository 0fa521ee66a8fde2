// Author and validate planted bugs: node tools/mkseed.mjs SPEC.mjs [ID...]
// SPEC.mjs default-exports [{id, property, edits: [[file, old, new]...], demo: 'body', needs, breaks, files?: {name: text}}].
// Works in a scratch copy of /repo (/tmp/w), writes seeded/<id>/ and reports: builds, stable tests pass, demo passes/fails, check verdict.
import fs from 'node:fs';
import path from 'node:path';
import { spawnSync } from 'node:child_process';
import { pathToFileURL, fileURLToPath } from 'node:url';
const root = path.join(path.dirname(fileURLToPath(import.meta.url)), '..');
const W = '/tmp/w' + (process.env.SLOT || ''), CFG = W + 'cfg';
const sh = (cmd, opt = {}) => spawnSync('bash', ['-c', cmd], { encoding: 'utf8', maxBuffer: 1 << 28, ...opt });
sh(`rm -rf ${W} ${CFG}; cp -a /repo ${W}; cp -a /opt/vp/config ${CFG}; sed -i "s#/repo#${W}#g; s#/opt/vp/config#${CFG}#g" ${CFG}/*.js ${CFG}/*.json; rm -f ${CFG}/build.tsbuildinfo`);
const env = { ...process.env, CI: '1', TZ: 'UTC', LC_ALL: 'C.UTF-8', NODE_OPTIONS: '--max-old-space-size=4096' };
const build = () => {
  const r = sh(`/opt/veriftools/node/node_modules/.bin/tsc -p ${CFG}/tsconfig.json --pretty false | grep -v '^[[:space:]]' | sed '/^$/d' | sed -E 's/\\([0-9]+,[0-9]+\\): / /; s/OutgoingHttpHeaders \\| readonly string\\[\\]/readonly string[] | OutgoingHttpHeaders/' | sed 's#^\\(../\\)*tmp/w[^/]*/##' | grep -vxFf ${CFG}/known-diagnostics.txt`, { env, cwd: W });
  return r.stdout.trim();
};
const stable = new Set(JSON.parse(fs.readFileSync('/opt/vp/BASELINE.json')).stable);
const jest = files => {
  sh(`timeout 840 /opt/veriftools/node/node_modules/.bin/jest --ci -c ${CFG}/jest.config.js --no-cache --json --outputFile=${CFG}/report.json ${files.join(' ')}`, { env, cwd: W });
  sh(`sed -i 's#${W}/#/repo/#g' ${CFG}/report.json; python3 /opt/vp/results.py ${CFG}/out.json jest:${CFG}/report.json`);
  return new Set(JSON.parse(fs.readFileSync(CFG + '/out.json')).passed);
};
// files that fail are run once more on their own: some tests depend on timing and fail under load
const test = () => {
  const p = jest([]); let missing = [...stable].filter(t => !p.has(t));
  if (missing.length && missing.length < 200) { const again = jest([...new Set(missing.map(t => t.split('::')[0]))]); missing = missing.filter(t => !again.has(t)); }
  return missing;
};
const prelude = `import { createRequire } from 'node:module';
import assert from 'node:assert/strict';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
const NM = '/opt/veriftools/node/node_modules', require = createRequire(import.meta.url), esbuild = require(NM + '/esbuild');
const REPO = process.cwd(), tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'demo-'));
process.on('exit', () => fs.rmSync(tmp, { recursive: true, force: true }));
/** bundle packages/<pkg>/src/<file> of the repository in the working directory */
function load(pkg, file = 'index.ts') {
  const alias = { tslib: NM + '/tslib/tslib.es6.js' };
  for (const p of fs.readdirSync(path.join(REPO, 'packages'))) alias['@curong/' + p] = path.join(REPO, 'packages', p, 'src');
  const out = path.join(tmp, (pkg + '_' + file).replace(/\\W/g, '_') + '.cjs');
  esbuild.buildSync({ entryPoints: [path.join(REPO, 'packages', pkg, 'src', file)], bundle: true, platform: 'node', format: 'cjs', target: 'node20', outfile: out, alias, logLevel: 'silent', keepNames: true, tsconfigRaw: { compilerOptions: { target: 'ESNext', alwaysStrict: true } } });
  return require(out);
}
const sleep = ms => new Promise(r => setTimeout(r, ms));
setTimeout(() => { console.error('demo: timed out'); process.exit(1); }, 60000).unref();
`;
const demoSh = `#!/bin/bash\nexec node "$(dirname "$0")/demo.mjs"\n`;
const specs = (await import(pathToFileURL(path.resolve(process.argv[2])))).default;
const want = process.argv.slice(3);
for (const s of specs) {
  if (want.length && !want.includes(s.id)) continue;
  const dir = path.join(root, 'seeded', s.id);
  const out = [];
  sh(`git checkout -q -- . && git clean -fdq`, { cwd: W });
  try {
    for (const [f, a, b] of s.edits) {
      const p = path.join(W, f), t = fs.readFileSync(p, 'utf8');
      if (t.split(a).length !== 2) throw new Error(`edit of ${f}: ${t.split(a).length - 1} matches of ${JSON.stringify(a)}`);
      fs.writeFileSync(p, t.replace(a, () => b));
    }
    fs.rmSync(dir, { recursive: true, force: true }); fs.mkdirSync(dir, { recursive: true });
    fs.writeFileSync(path.join(dir, 'patch.diff'), sh('git diff', { cwd: W }).stdout);
    fs.writeFileSync(path.join(dir, 'demo.sh'), demoSh, { mode: 0o755 });
    fs.writeFileSync(path.join(dir, 'demo.mjs'), prelude + s.demo.trim() + '\n');
    for (const [n, t] of Object.entries(s.files || {})) fs.writeFileSync(path.join(dir, n), t);
    fs.writeFileSync(path.join(dir, 'meta.json'), JSON.stringify({ property: s.property, needs: s.needs, what_it_breaks: s.breaks }, null, 1) + '\n');
    // lines changed must be original lines
    const base = sh('git rev-list --max-parents=0 HEAD', { cwd: W }).stdout.trim();
    let orig = true;
    for (const [f, a] of s.edits) { const t0 = sh(`git show ${base}:${f}`, { cwd: W }).stdout; const changed = sh(`git diff -U0 -- ${f}`, { cwd: W }).stdout.split('\n').filter(l => /^-(?!--)/.test(l)).map(l => l.slice(1).trim()).filter(Boolean); if (changed.length && !changed.some(l => t0.includes(l))) orig = false; }
    if (!orig) out.push('NOT-ORIGINAL-LINES');
    const b = build(); if (b) out.push('BUILD ' + b.slice(0, 400));
    const bad = sh(`bash ${dir}/demo.sh`, { cwd: W, timeout: 120000 });
    if (bad.status === 0) out.push('DEMO PASSES WITH PATCH');
    const good = sh(`bash ${dir}/demo.sh`, { cwd: '/repo', timeout: 120000 });
    if (good.status !== 0) out.push('DEMO FAILS ON CLEAN ' + (good.stderr || '').slice(-600));
    if (!process.env.NOTEST && !out.length) { const m = test(); if (m.length) out.push(`TESTS FAIL ${m.length}: ${m.slice(0, 4)}`); }
    const c = fs.existsSync(path.join(root, 'checks', s.property + '.mjs')) ? sh(`node run.mjs ${s.property} --tier quick --seed 1`, { cwd: root, env: { ...process.env, VERIF_REPO: W } }) : { status: 'none', stdout: '' };
    out.push(c.status === 1 ? 'CAUGHT ' + (c.stdout.split('\n').find(l => /case /.test(l)) || '').trim().slice(0, 160) : `MISSED(${c.status}) ${c.stdout.slice(0, 200)}`);
  } catch (e) { out.push('ERROR ' + e.message); }
  const valid = out.length === 1 && /^(CAUGHT|MISSED)/.test(out[0]);
  if (!valid) fs.rmSync(dir, { recursive: true, force: true });
  console.log(`${valid ? '' : 'INVALID '}${s.id} [${s.property}] ${out.join(' ; ')}`);
}
sh(`rm -rf ${W} ${CFG}`);
