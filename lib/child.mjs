// Runs one check in its own process. argv: id tier seed reportFile heartbeatFile [only]
import fs from 'node:fs';
import { Ctx } from './ctx.mjs';
import { BuildError } from './bundle.mjs';
const [id, tier, seed, reportFile, hbFile, only] = process.argv.slice(2);
const ctx = new Ctx({ id, tier, seed: Number(seed), only, heartbeat: fs.openSync(hbFile, 'w') });
ctx.reportFile = reportFile;
let finished = false;
function report(extra) {
  if (finished) return; finished = true;
  fs.writeFileSync(ctx.reportFd ?? reportFile, JSON.stringify({
    evaluations: ctx.evaluations, distinct: ctx.distinct.size, samples: ctx.samples, violations: ctx.violations, known: ctx.known,
    stats: ctx.stats, perSection: ctx.perSection, inconclusive: ctx.inconclusive, rule: ctx.rule, assumptions: ctx.assumptions, ...extra,
  }));
}
process.on('beforeExit', () => {
  if (finished) return;
  // the event loop is empty although the current case still waits: something it awaits can never settle
  ctx.record({ key: 'never-settles', message: `a promise of the code under test never settles: nothing is pending and the case is still waiting`, witness: undefined }, ctx.label);
  report(); process.exit(0);
});
process.on('uncaughtException', e => {
  ctx.record({ key: 'uncaught', message: `uncaught exception escaped the call: ${e && e.stack || e}` }, ctx.label);
  report(); process.exit(0);
});
try {
  const mod = await import(`../checks/${id}.mjs`);
  ctx.rule = mod.rule; ctx.assumptions = mod.assumptions;
  await mod.default(ctx);
  report();
} catch (e) {
  if (e instanceof BuildError) report({ build: e.message });
  else { report({ harness: String(e && e.stack || e) }); }
}
process.exit(0);
