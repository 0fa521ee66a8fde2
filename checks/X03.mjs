import fs from 'node:fs';
import path from 'node:path';
import { load, scratch } from '../lib/bundle.mjs';
import { openFds, settleFds } from '../lib/tree.mjs';
export const rule = 'pairs of contents of sizes around multiples of the block size: equal, differing in one byte at any place, extended by zero and other bytes, truncated, swapped blocks; and missing, unreadable and folder paths; non-trivial: distinct pair';
export const assumptions = ['both files are regular and stay unchanged during the call'];
export default async function (ctx) {
  // handles stay referenced, so that one that is not closed is not closed by the garbage collector either
  const open = fs.promises.open, held = []; fs.promises.open = async (...a) => { const h = await open.apply(fs.promises, a); held.push(h); if (held.length > 4000) held.splice(0, 2000); return h; };
  const { diffFile } = load('fs');
  const base = path.join(scratch(), 'x03'); fs.mkdirSync(base); fs.chmodSync(base, 0o777); ctx.unprivileged(); process.chdir(base);
  const gen = (c, n) => { const b = Buffer.alloc(n), m = c.int(0, 3); if (m) for (let i = 0; i < n; i++) b[i] = m === 1 ? c.int(0, 255) : m === 2 ? 97 + i % 26 : c.bool(0.1) ? 0 : 255; return b; };
  const SZ = c => c.bool(0.3) ? c.int(0, 3) : c.bool(0.6) ? Math.max(0, 512 * c.int(0, 6) + c.int(-2, 2)) : c.bool(0.8) ? c.int(0, 6000) : c.int(60000, 70000);
  async function cmp(c, a, b, want, what) {
    const fds = openFds(); let r, err; try { r = await diffFile(a, b); } catch (e) { err = e; }
    c.ok(want === 'unreadable' ? r === false || err : !err, 'threw', () => `diffFile (${what}) rejected: ${err && err.message}`);
    if (want !== 'unreadable') c.ok(r === want, 'answer', () => `diffFile is ${r} for ${what}`); else c.ok(r !== true, 'answer', () => `diffFile is true for ${what}`);
    c.ok(await settleFds(fds) <= fds, 'descriptors', () => `diffFile (${what}) left ${openFds() - fds} file descriptors open`); ctx.stat('answer_' + (want === 'unreadable' ? 'unreadable' : want));
  }
  await ctx.section('pairs', ctx.n(2500, 15), async (c, i) => {
    const a = gen(c, SZ(c)), kind = c.pick(['equal', 'byte', 'zeros', 'append', 'truncate', 'swap', 'insert', 'other', 'bit']); let b = Buffer.from(a), at = null;
    if (kind === 'byte' && a.length) { at = c.pick([0, a.length - 1, c.int(0, a.length - 1), Math.min(a.length - 1, 512 * c.int(0, 8))]); b[at] ^= c.int(1, 255); }
    if (kind === 'bit' && a.length) { at = c.int(0, a.length - 1); b[at] ^= 1 << c.int(0, 7); }
    if (kind === 'zeros') b = Buffer.concat([a, Buffer.alloc(c.pick([1, 2, 511, 512, 513, 1024, c.int(1, 600)]))]);
    if (kind === 'append') b = Buffer.concat([a, gen(c, c.pick([1, 512, 513]))]);
    if (kind === 'truncate') b = a.subarray(0, Math.max(0, a.length - c.pick([1, 2, 512, 513])));
    if (kind === 'swap' && a.length > 1024) { b = Buffer.concat([a.subarray(512, 1024), a.subarray(0, 512), a.subarray(1024)]); }
    if (kind === 'insert') { at = c.int(0, a.length); b = Buffer.concat([a.subarray(0, at), Buffer.from([c.int(0, 255)]), a.subarray(at)]); }
    if (kind === 'other') b = gen(c, c.bool() ? a.length : SZ(c));
    if (c.bool()) { const t = b; b = Buffer.from(a); c.ev([kind, t.length, a.length, at]); await files(t, b); } else { c.ev([kind, a.length, b.length, at]); await files(a, b); }
    async function files(x, y) { const f = `f${i}`, g = `g${i}`; fs.writeFileSync(f, x); fs.writeFileSync(g, y); await cmp(c, c.bool() ? f : path.join(base, f), g, x.equals(y), `${kind}: sizes ${x.length} and ${y.length}, place ${at}`); await cmp(c, f, f, true, 'a file and itself'); fs.unlinkSync(f); fs.unlinkSync(g); }
  });
  // large files that differ in one byte, or by one byte, near powers of two
  await ctx.section('large', 12, async (c, i) => {
    const n = [65536, 1 << 17, 1 << 18, 1 << 19, 1 << 20, 1 << 21, 1 << 22, 1 << 23, 1 << 24, 1 << 25, 1 << 26, 1e7][i], sparse = (f, size, at) => { const h = fs.openSync(f, 'w'); fs.ftruncateSync(h, size); for (const k of at) fs.writeSync(h, Buffer.from([1]), 0, 1, k); fs.closeSync(h); }; c.ev(n);
    sparse('L1', n + 700, []); for (const [size, at] of [[n + 700, [n + 699]], [n + 700, [n]], [n + 700, [n - 1]], [n + 701, []], [n, []], [n + 700, []]]) { sparse('L2', size, at); await cmp(c, 'L1', 'L2', size === n + 700 && !at.length, `files of ${n + 700} and ${size} bytes, differing at ${at}`); } for (const f of ['L1', 'L2']) fs.unlinkSync(f); ctx.statMax('largest', n);
  });
  // past what fits 31 and 32 bits (thorough)
  if (ctx.thorough) await ctx.section('huge', 3, async (c, i) => { const n = [2 ** 31, 2 ** 31 - 512, 2 ** 32][i]; const sparse = (f, size, at) => { const h = fs.openSync(f, 'w'); fs.ftruncateSync(h, size); for (const k of at) fs.writeSync(h, Buffer.from([1]), 0, 1, k); fs.closeSync(h); }; c.ev(n); sparse('H1', n + 2000, []); sparse('H2', n + 2000, [n + 1700]); await cmp(c, 'H1', 'H2', false, `files of ${n + 2000} bytes that differ near the end`); for (const f of ['H1', 'H2']) fs.unlinkSync(f); });
  await ctx.section('unreadable', ctx.n(120, 8), async (c, i) => {
    const f = `u${i}`; fs.writeFileSync(f, 'x'.repeat(c.int(0, 600))); fs.mkdirSync(f + 'd'); const denied = f + 'n'; fs.writeFileSync(denied, fs.readFileSync(f)); fs.chmodSync(denied, 0);
    const bad = c.pick([f + 'missing', f + 'd', f + '/below', ...(process.getuid() ? [denied] : []), '']), pair = c.pick([[f, bad], [bad, f], [bad, bad]]); c.ev([bad.replace(f, ''), pair.map(x => x === f)]);
    await cmp(c, pair[0], pair[1], 'unreadable', `unreadable path ${bad}`);
    fs.rmSync(f); fs.rmdirSync(f + 'd'); fs.rmSync(denied);
  });
  await ctx.section('concurrent', ctx.n(30, 8), async (c, i) => { const d = Array.from({ length: 6 }, (_, k) => { const x = gen(c, c.pick([512, 1024, 1500])); fs.writeFileSync(`k${i}_${k}`, x); return x; }); const ps = [], fds = openFds(); for (let a = 0; a < 6; a++) for (let b = 0; b < 6; b++) ps.push(diffFile(`k${i}_${a}`, `k${i}_${b}`).then(r => c.ok(r === d[a].equals(d[b]), 'concurrent', () => `concurrent diffFile is ${r}`))); await Promise.all(ps); c.ev(d.map(x => x.length).join()); c.ok(await settleFds(fds) <= fds, 'descriptors', 'descriptors left open'); for (let k = 0; k < 6; k++) fs.unlinkSync(`k${i}_${k}`); });
}
