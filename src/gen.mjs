// node src/gen.mjs : writes properties.jsonl and MANIFEST.json from props.mjs and the checks present.
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { props } from './props.mjs';
import { notes, notApplicable } from './notes.mjs';
const root = path.join(path.dirname(fileURLToPath(import.meta.url)), '..');
const repo = process.env.VERIF_REPO || '/repo';
// anchors may be given by base name; find the file in its package
function locate(id, f) {
  if (fs.existsSync(path.join(repo, f))) return f;
  const pkg = f.split('/').slice(0, 3).join('/'), base = path.basename(f);
  const hit = fs.readdirSync(path.join(repo, pkg), { recursive: true }).filter(x => path.basename(x) === base && !/__tests__|types\/|constants\//.test(x));
  if (hit.length !== 1) throw new Error(`${id}: anchor ${f} -> ${hit}`);
  return `${pkg}/${hit[0]}`;
}
const ids = new Set();
for (const p of props) {
  if (p.title.length > 80) throw new Error('title too long: ' + p.id);
  if (ids.has(p.id)) throw new Error('duplicate ' + p.id); ids.add(p.id);
  p.anchors.files = [...new Set(p.anchors.files.map(f => locate(p.id, f)))];
}
fs.writeFileSync(path.join(root, 'properties.jsonl'), props.map(p => JSON.stringify(p)).join('\n') + '\n');
const built = props.filter(p => fs.existsSync(path.join(root, 'checks', p.id + '.mjs')));
const T = 'runtime monitoring: ';
fs.writeFileSync(path.join(root, 'MANIFEST.json'), JSON.stringify({
  version: 1, setup_cmd: 'node --version && test -d /opt/veriftools/node/node_modules/esbuild',
  checks: built.map(p => ({
    property: p.id, quick_cmd: `node run.mjs ${p.id} --tier quick`, thorough_cmd: `node run.mjs ${p.id} --tier thorough`, evidence_file: `evidence/${p.id}.json`,
    technique: T + (notes[p.id]?.technique || 'executable reference model as online oracle over seeded workloads on the real code'), level: 'exploration',
    level_note: notes[p.id]?.note || 'Held on the executions observed (counted in the evidence file); nothing is claimed for inputs and schedules outside the generators described there.',
  })),
  not_applicable: [...Object.entries(notApplicable).map(([property, reason]) => ({ property, reason })), ...props.filter(p => !built.includes(p) && !notApplicable[p.id]).map(p => ({ property: p.id, reason: 'no check built yet' }))],
  notes: 'All checks: node run.mjs <ID> bundles /repo/packages from the working tree with esbuild and drives the real code; --seed and --only replay a case.',
}, null, 1) + '\n');
console.log(`${props.length} properties, ${built.length} checks`);
