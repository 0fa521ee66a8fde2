// node src/gen-design.mjs : rewrites the generated part of DESIGN.md (per property, and the planted-bug table).
// Needs evidence/ of a quick run of every check (for the observed counts), and seeded/.
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { props } from './props.mjs';
import { notes } from './notes.mjs';
const root = path.join(path.dirname(fileURLToPath(import.meta.url)), '..');
const j = f => JSON.parse(fs.readFileSync(path.join(root, f), 'utf8'));
const out = [];
const fixed = j('known-findings.json').fixed.map(t => t.match(/^fixed: property=(\S+) (\S+) (.*)$/s));
const caught = fs.existsSync(path.join(root, 'src/seeded-results.json')) ? j('src/seeded-results.json') : {};
const seeds = fs.readdirSync(path.join(root, 'seeded')).sort().map(id => ({ id, ...j(`seeded/${id}/meta.json`) }));
out.push(`## The ${props.length} properties, one by one`, '');
out.push('Counts are those of one quick run (seed 1); every run writes its own to `evidence/<id>.json`. "Alarm" is what the oracle', 'compares; the full statements are in `properties.jsonl`.', '');
for (const p of props) {
  const ev = fs.existsSync(path.join(root, `evidence/${p.id}.json`)) ? j(`evidence/${p.id}.json`) : null;
  const src = fs.readFileSync(path.join(root, `checks/${p.id}.mjs`), 'utf8');
  const rule = (src.match(/export const rule = (['"`])([\s\S]*?)\1;/) || [])[2] || ev?.coverage.rule;
  out.push(`### ${p.id} ${p.title}`, '');
  out.push(`* Quantified over: ${p.quantifier.text}.`);
  out.push(`* Decided by: ${notes[p.id]?.technique || 'executable reference model as online oracle'}.`);
  out.push(`* Workload: ${rule}.`);
  if (ev) out.push(`* Observed in a quick run: ${ev.coverage.evaluations} cases, ${ev.coverage.distinct_nontrivial} distinct, ${Math.round(ev.wall_s)} s; sections ${Object.entries(ev.coverage.per_section).map(([k, v]) => `${k} ${v.evaluations}`).join(', ')}.`);
  if (ev?.assumptions.length) out.push(`* Assumes: ${ev.assumptions.join('; ')}.`);
  out.push(`* What tests cannot reach: ${p.why_tests_cant}`);
  const mine = seeds.filter(s => s.property === p.id); if (mine.length) out.push(`* Planted bugs: ${mine.map(s => s.id).join(', ')}.`);
  const rep = fixed.filter(m => m[1] === p.id); if (rep.length) out.push(`* Defects found and repaired (${rep.length}): ${rep.map(m => `${m[3]} (${m[2]})`).join('; ')}.`);
  out.push('');
}
out.push('## Planted bugs and the check that reports each', '', '| bug | what it breaks | needs | reported by |', '|---|---|---|---|');
const cell = s => String(s).replace(/\|/g, '\\|').replace(/\n/g, ' ');
for (const s of seeds) out.push(`| ${s.id} | ${cell(s.what_it_breaks)} | ${cell(s.needs)} | ${caught[s.id] === undefined ? 'not run yet' : caught[s.id] ? s.property : '**missed**'} |`);
const f = path.join(root, 'DESIGN.md'), B = '<!-- generated: node src/gen-design.mjs -->', t = fs.readFileSync(f, 'utf8');
fs.writeFileSync(f, t.split(B)[0].trimEnd() + '\n\n' + B + '\n\n' + out.join('\n') + '\n');
console.log(`${props.length} properties, ${seeds.length} planted bugs`);
