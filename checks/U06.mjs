import { execFile } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
import { load, buildEntry, scratch } from '../lib/bundle.mjs';
export const rule = 'both probes in processes with different stack sizes and at different depths of the stack; non-trivial: distinct (stack size, depth)';
export const assumptions = ['a call made from the place that asked has a different rest of the stack than the probe had, so the limit is compared with a margin', 'frames of the probe and of the counter of the check differ in size by less than a factor of twelve'];
export default async function (ctx) {
  load('util'); const lib = buildEntry('pkg_util', ''), script = path.join(scratch(), 'u06.cjs');
  fs.writeFileSync(script, `const { maxArgsLength, maxCallStackSize } = require(${JSON.stringify(lib)}), [depths] = process.argv.slice(2).map(x => JSON.parse(x)), out = [];
const f = function () { return arguments.length; }, can = n => { try { return f.apply(null, { length: n }) === n; } catch { return false; } };
can(5); can(1e9); let own = 0; const count = () => { own++; count(); };
const at = d => { if (d > 0) { const r = at(d - 1); return r; } let r = {}; try { r.args = maxArgsLength(); r.fits = can(r.args - 3000); r.more = can(r.args + 5000); r.again = maxArgsLength(); r.size = maxCallStackSize(); own = 0; try { count(); } catch { } r.own = own; r.size2 = maxCallStackSize(); r.after = can(100); } catch (e) { r.error = String(e); } return r; };
for (const d of depths) out.push(at(d)); console.log(JSON.stringify(out));`);
  const run = (size, depths) => new Promise((res, rej) => execFile(process.execPath, [...(size ? ['--stack-size=' + size] : []), script, JSON.stringify(depths)], { timeout: 60000 }, (e, so) => e ? rej(e) : res(JSON.parse(so))));
  await ctx.section('probes', ctx.n(12, 6), async c => {
    const size = c.pick([0, 200, 400, 700, 900, 984]), depths = [0, ...Array.from({ length: 4 }, () => c.int(0, size === 200 ? 300 : 900))]; c.ev([size, depths]);
    const rs = await run(size, depths); rs.forEach((r, i) => {
      const where = () => `with a stack of ${size || 'default'} KB at depth ${depths[i]}: ${JSON.stringify(r)}`; c.ok(r.error === undefined, 'probe-throws', where);
      c.ok(Number.isInteger(r.args) && r.args > 1000, 'args-number', where); c.ok(r.fits, 'args-too-many', () => `a call with 3000 arguments less than maxArgsLength() fails ${where()}`); c.ok(!r.more, 'args-too-few', () => `a call with many more than maxArgsLength() arguments works ${where()}`); c.ok(Math.abs(r.again - r.args) < 3000, 'args-unstable', where);
      for (const s of [r.size, r.size2]) c.ok(Number.isInteger(s) && s > r.own / 12 && s < r.own * 12, 'stack-size', where); c.ok(r.after, 'stack-after', where); ctx.stat('probes');
    });
    const small = rs[0]; for (let i = 1; i < rs.length; i++) c.ok(rs[i].args <= small.args + 3000, 'deeper-is-larger', () => JSON.stringify(rs));
  });
}
