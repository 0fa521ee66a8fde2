#!/usr/bin/env node
// usage: node run.mjs <property> [--tier quick|thorough] [--seed N] [--only 'section#i']
// Exit 0: held on everything explored; 1: VIOLATION line printed; 2: inconclusive (build failure, nothing observed, watchdog).
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { spawn } from 'node:child_process';
import { fileURLToPath } from 'node:url';
const root = path.dirname(fileURLToPath(import.meta.url));
const args = process.argv.slice(2); const id = args.find(a => /^[A-Z]\d+$/.test(a));
const opt = n => { const i = args.indexOf('--' + n); return i < 0 ? undefined : args[i + 1]; };
const tier = opt('tier') || process.env.VERIF_TIER || 'quick';
const seed = Number(opt('seed') ?? process.env.VERIF_SEED ?? 1) | 0;
if (!id) { console.error('no property id'); process.exit(2); }
const t0 = Date.now();
const scratch = fs.mkdtempSync(path.join(os.tmpdir(), `verif-${id}-`));
fs.chmodSync(scratch, 0o755);
const cleanup = () => fs.rmSync(scratch, { recursive: true, force: true });
process.on('exit', cleanup);
for (const s of ['SIGINT', 'SIGTERM']) process.on(s, () => process.exit(2));
const CASE_CPU_S = 40, WALL_S = tier === 'thorough' ? 3600 : 780;
function cpuSeconds(pid) { try { const f = fs.readFileSync(`/proc/${pid}/stat`, 'utf8').split(') ')[1].split(' '); return (Number(f[11]) + Number(f[12])) / 100; } catch { return 0; } }
let runNo = 0;
function runChild(only) {
  const n = ++runNo; const rep = path.join(scratch, `report${n}.json`), hb = path.join(scratch, `hb${n}`), work = path.join(scratch, `w${n}`);
  fs.mkdirSync(work); fs.writeFileSync(hb, ''); fs.chmodSync(work, 0o777);
  return new Promise(resolve => {
    const ch = spawn(process.execPath, ['--max-old-space-size=3000', '--expose-gc', path.join(root, 'lib/child.mjs'), id, tier, String(seed), rep, hb, ...(only ? [only] : [])],
      { env: { ...process.env, VERIF_SCRATCH: work, TZ: 'UTC', FORCE_COLOR: '0', NODE_OPTIONS: '' }, stdio: ['ignore', 'pipe', 'pipe'] });
    let err = ''; const outTail = d => { err = (err + d).slice(-6000); };
    ch.stderr.on('data', outTail); ch.stdout.on('data', () => { });
    let last = '', lastCpu = 0, why = null;
    const iv = setInterval(() => {
      let cur = ''; try { cur = fs.readFileSync(hb, 'utf8').trim(); } catch { }
      const cpu = cpuSeconds(ch.pid);
      if (cur !== last) { last = cur; lastCpu = cpu; }
      else if (cpu - lastCpu > CASE_CPU_S) { why = 'cpu'; ch.kill('SIGKILL'); }
      if (Date.now() - t0 > WALL_S * 1000) { why = 'wall'; ch.kill('SIGKILL'); }
    }, 500);
    ch.on('close', (code, sig) => {
      clearInterval(iv);
      let cur = ''; try { cur = fs.readFileSync(hb, 'utf8').trim(); } catch { }
      const label = cur.replace(/^\d+ /, '');
      if (fs.existsSync(rep)) { let r; try { r = JSON.parse(fs.readFileSync(rep, 'utf8')); } catch { } if (r) return resolve({ report: r, label, err }); }
      if (!why && /heap out of memory|Allocation failed|invalid array length/i.test(err)) why = 'oom';
      resolve({ why: why || `crash code=${code} sig=${sig}`, label, err });
    });
  });
}
function inconclusive(msg) { console.log(`INCONCLUSIVE property=${id} ${msg}`); writeEvidence(null, 0); process.exit(2); }
function writeEvidence(r, nviol) {
  fs.mkdirSync(path.join(root, 'evidence'), { recursive: true });
  const ev = {
    property: id, tier, seed, level: 'exploration',
    coverage: {
      evaluations: r?.evaluations ?? 0, distinct_nontrivial: r?.distinct ?? 0, rule: r?.rule ?? 'check did not finish',
      samples: r?.samples ?? [], per_section: r?.perSection ?? {}, observed: r?.stats ?? {}, inconclusive_cases: r?.inconclusive ?? [],
      known_findings_seen: (r?.known ?? []).map(k => k.key),
    },
    assumptions: r?.assumptions ?? [], wall_s: (Date.now() - t0) / 1000, violations: nviol,
  };
  fs.writeFileSync(path.join(root, 'evidence', `${id}.json`), JSON.stringify(ev, null, 1) + '\n');
}
const known = JSON.parse(fs.readFileSync(path.join(root, 'known-findings.json'), 'utf8')).findings.filter(f => f.property === id);
let res = await runChild(opt('only'));
let r = res.report;
if (!r) {
  if (res.why === 'wall') inconclusive(`watchdog: ${WALL_S} s passed (case ${res.label})`);
  // a case that burnt its processor budget, exhausted the heap or crashed the process: confirm it alone in a fresh process
  const again = res.label ? await runChild(res.label) : res;
  if (again.report && !again.report.violations.length) inconclusive(`case ${res.label}: ${res.why}, not reproduced (${res.err.slice(-300)})`);
  if (again.why === 'wall') inconclusive('watchdog');
  const what = { cpu: `does not terminate: the case used more than ${CASE_CPU_S} s of processor time, twice`, oom: 'exhausts the heap, twice' }[res.why] || `the process died (${res.why}), twice: ${res.err.slice(-500)}`;
  r = again.report || { evaluations: 1, distinct: 1, samples: [], stats: {}, perSection: {}, rule: 'stopped at the failing case', violations: [{ key: 'non-termination', case: res.label, message: what }], known: [], inconclusive: [] };
}
if (r.build) inconclusive(r.build);
if (r.harness) { console.error(r.harness); inconclusive('harness error'); }
const fresh = [], seenKnown = [];
for (const v of r.violations) { (known.some(k => k.status === 'known' && k.key === v.key) ? seenKnown : fresh).push(v); }
for (const k of r.known) if (known.some(f => f.status === 'known' && f.key === k.key)) seenKnown.push({ key: k.key, message: k.what }); else fresh.push({ key: k.key, message: k.what, case: 'known-finding probe' });
for (const key of new Set(seenKnown.map(v => v.key))) console.log(`KNOWN-FINDING: property=${id} ${known.find(k => k.key === key).what}`);
writeEvidence(r, fresh.length);
if (fresh.length) {
  fs.mkdirSync(path.join(root, 'replays'), { recursive: true });
  fresh.slice(0, 5).forEach((v, i) => {
    const file = path.join(root, 'replays', `${id}-${i}.json`);
    fs.writeFileSync(file, JSON.stringify({ property: id, seed, tier, replay_cmd: `node run.mjs ${id} --tier ${tier} --seed ${seed} --only '${v.case}'`, ...v }, null, 1) + '\n');
    console.log(`VIOLATION property=${id} replay=${file}`);
    console.log(`  case ${v.case} [${v.key}]: ${v.message}`.slice(0, 1500));
  });
  process.exit(1);
}
if (!r.evaluations) inconclusive('nothing observed');
if (r.inconclusive.length > r.evaluations / 2) inconclusive('most cases inconclusive: ' + r.inconclusive[0]);
console.log(`OK property=${id} tier=${tier} seed=${seed} evaluations=${r.evaluations} distinct=${r.distinct} wall=${((Date.now() - t0) / 1000).toFixed(1)}s ${JSON.stringify(r.stats)}`);
process.exit(0);
