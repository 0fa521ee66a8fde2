// Run the check of each planted bug against a patched scratch copy: node tools/checkseeds.mjs [ID...]  (JOBS parallel copies)
import fs from 'node:fs';
import path from 'node:path';
import { spawn, spawnSync } from 'node:child_process';
import { fileURLToPath } from 'node:url';
const root = path.join(path.dirname(fileURLToPath(import.meta.url)), '..'), jobs = +process.env.JOBS || 3;
const ids = process.argv.slice(2).length ? process.argv.slice(2) : fs.readdirSync(path.join(root, 'seeded')).sort();
const sh = (cmd, opt = {}) => new Promise(r => { const p = spawn('bash', ['-c', cmd], opt); let out = ''; p.stdout.on('data', d => out += d); p.stderr.on('data', d => out += d); p.on('close', status => r({ status, out })); });
const res = {}; let next = 0;
await Promise.all(Array.from({ length: jobs }, async (_, k) => {
  const W = `/tmp/cs${process.pid}_${k}`; spawnSync('cp', ['-a', '/repo', W]);
  while (next < ids.length) {
    const id = ids[next++], dir = path.join(root, 'seeded', id), prop = JSON.parse(fs.readFileSync(path.join(dir, 'meta.json'))).property;
    await sh('git checkout -q -- . && git clean -fdq', { cwd: W }); const a = await sh(`git apply ${dir}/patch.diff`, { cwd: W });
    if (a.status) { res[id] = 'DOES NOT APPLY'; console.log(id, res[id]); continue; }
    const c = await sh(`node run.mjs ${prop} --tier quick --seed 1`, { cwd: root, env: { ...process.env, VERIF_REPO: W } });
    res[id] = c.status === 1 && c.out.includes(`VIOLATION property=${prop}`) ? 'CAUGHT' : `MISSED(${c.status})`; if (res[id] !== 'CAUGHT' || process.env.V) console.log(id, res[id], c.out.split('\n').find(l => /case /.test(l)) || '');
  }
  fs.rmSync(W, { recursive: true, force: true });
}));
console.log(`${Object.values(res).filter(r => r === 'CAUGHT').length} of ${ids.length} caught`);
// keep the verdicts for the table of DESIGN.md
const file = path.join(root, 'src/seeded-results.json'), old = fs.existsSync(file) ? JSON.parse(fs.readFileSync(file)) : {};
for (const [id, v] of Object.entries(res)) old[id] = v === 'CAUGHT';
const have = new Set(fs.readdirSync(path.join(root, 'seeded')));
fs.writeFileSync(file, JSON.stringify(Object.fromEntries(Object.entries(old).filter(([id]) => have.has(id)).sort()), null, 1) + '\n');
