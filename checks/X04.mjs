import fs from 'node:fs';
import path from 'node:path';
import { createRequire } from 'node:module';
import { load, scratch } from '../lib/bundle.mjs';
import { openFds, settleFds } from '../lib/tree.mjs';
export const rule = 'random texts over all terminators and multi-byte characters as string and Buffer in several encodings; files with line ends around the read block boundary, delayed and failing reads; ranges and marks; non-trivial: distinct text/encoding/range';
export const assumptions = ['the terminators are the documented ones: CR, LF, CRLF, and for code also LS, PS and NEL', 'ranges are cut at character boundaries'];
export default async function (ctx) {
  const { readline, readlineFromCode, readlineStream, readFragment, stripBOM } = load('fs');
  const cfs = createRequire(import.meta.url)('fs');
  const base = path.join(scratch(), 'x04'); fs.mkdirSync(base); fs.chmodSync(base, 0o777); ctx.unprivileged(); process.chdir(base);
  const T = ['\r', '\n', '\r\n', '\n\r', '\u2028', '\u2029', '\u0085', '\f', '\v'], W = ['a', 'bc', ' ', '\t', 'é', '中文', '😀', '\ufeff', '\u2027', '\u202a', '\u0a0d', '\u0d0a', '\u0a00', '\0', '0', 'xyz'];
  const text = (c, n, t = T) => { let s = ''; for (let k = c.int(0, n); k > 0; k--) s += c.bool(0.45) ? c.pick(t) : c.pick(W); return s; };
  const q = JSON.stringify;
  await ctx.section('readline', ctx.n(12000), async c => {
    const s = text(c, c.pick([2, 8, 30])); c.ev(s);
    for (const [f, re, n] of [[readline, /\r\n|\r|\n/, 'readline'], [readlineFromCode, /\r\n|[\r\n\u2028\u2029\u0085]/, 'readlineFromCode']]) {
      const want = s.split(re), enc = c.pick(['utf8', 'utf8', 'utf16le', 'utf-8']), forms = [['string', s], ['buffer', Buffer.from(s, enc)]];
      for (const [k, v] of forms) {
        const e = k === 'buffer' && !enc.startsWith('utf8') || c.bool() ? enc : c.pick([undefined, null]);
        c.ok(q(f(v, e)) === q(want), n + '-lines', () => `${n}(${k} of ${q(s)}, ${e}) is ${q(f(v, e))}`);
        const calls = [], r = f(v, e, (x, d) => calls.push([x, d]));
        c.ok(q(calls) === q(want.map((x, i) => [x, i === want.length - 1])), n + '-callback', () => `${n}(${k} of ${q(s)}, ${e}, callback) calls ${q(calls)}`); c.eq(r, null, n + '-result');
        if (e === undefined || enc === 'utf8') { const c2 = []; f(k === 'buffer' ? Buffer.from(s) : v, (x, d) => c2.push([x, d])); c.ok(q(c2) === q(calls), n + '-callback2', () => `${n}(${k} of ${q(s)}, callback) calls ${q(c2)}`); }
        ctx.stat('lines', want.length);
      }
      c.throws(() => f(c.pick([1, null, undefined, {}, [1]])), n + '-invalid');
    }
    const b = c.pick(['', '\ufeff', '\ufeff\ufeff', '\ufffe', '']) + s; c.eq(stripBOM(b), b[0] === '\ufeff' ? b.slice(1) : b, 'stripBOM', q(b));
  });
  const TS = ['\r', '\n', '\r\n', '\n\n', '\r\r\n'];
  const lines = s => { const l = s.split(/\r\n|\r|\n/); if (l.at(-1) === '') l.pop(); return l; };
  async function stream(c, s, enc, what) {
    const f = 's.txt'; fs.writeFileSync(f, Buffer.from(s, enc)); fs.chmodSync(f, c.pick([0o644, 0o444])); const want = lines(s), fds = openFds();
    const form = c.int(0, 3), args = form === 0 ? (enc === 'utf8' ? [] : [enc]) : form === 1 && enc === 'utf8' ? [x => got.push(x)] : [enc, x => got.push(x)], got = []; const hasCb = args.some(a => typeof a === 'function');
    const r = await readlineStream(path.join(base, f), ...args);
    if (hasCb) c.eq(r, true, 'stream-result'); else c.ok(Array.isArray(r), 'stream-array', () => `readlineStream without a callback resolves to ${q(r)} for ${what}`);
    const l = hasCb ? got : r; let i = 0; while (i < l.length && l[i] === want[i]) i++;
    c.ok(l.length === want.length && i === l.length, 'stream-lines', () => `readlineStream of ${what}: ${l.length} lines, expected ${want.length}; line ${i} is ${q(l[i])?.slice(0, 80)}, expected ${q(want[i])?.slice(0, 80)}`);
    c.ok(await settleFds(fds) <= fds, 'stream-descriptors', 'readlineStream leaves the file open');
    ctx.stat('stream_lines', want.length); fs.rmSync(f);
  }
  const noLS = t => t.replace(/[\u2028\u2029]/g, '');
  await ctx.section('stream', ctx.n(800, 12), async c => { const s = noLS(text(c, c.pick([0, 3, 20, 80]), TS)), enc = c.pick(['utf8', 'utf8', 'utf16le']); c.ev([s, enc]); await stream(c, s, enc, q(s).slice(0, 300)); });
  await ctx.section('stream-big', ctx.n(60, 10), async c => { // line ends and multi-byte characters around the 64 KiB boundary
    const filler = c.pick(['a', '中', 'é']), unit = Buffer.byteLength(filler), k = Math.floor((65536 - c.int(0, 6)) / unit); let s = ''; for (let n = c.int(1, 3); n > 0; n--) s += filler.repeat(k) + noLS(text(c, 8, TS)); c.ev([filler, k, s.slice(k, k + 8)]); await stream(c, s, 'utf8', `${s.length} characters with ${q(s.slice(k, k + 8))} at ${k}`); ctx.stat('big_files');
  });
  const realRead = cfs.read;
  await ctx.section('stream-delayed', ctx.n(3, 4), async (c, i) => { // the second half of a line break arrives late
    const s = 'x'.repeat(65535) + '\r\n' + 'tail' + c.pick(['', '\n', '\r\nmore']); c.ev([i, s.slice(65535)]); let n = 0;
    cfs.read = function (...a) { if (n++ === 0) return realRead.apply(this, a); ctx.stat('delayed_reads'); setTimeout(() => realRead.apply(this, a), 130); };
    try { await stream(c, s, 'utf8', 'a file whose second block arrives 130 ms late, split inside CRLF'); } finally { cfs.read = realRead; }
  });
  await ctx.section('stream-fails', ctx.n(20, 4), async (c, i) => {
    const f = 'e.txt'; fs.writeFileSync(f, 'line\n'.repeat(c.pick([10, 30000]))); const at = c.int(0, 1); let n = 0; c.ev([i, at]);
    cfs.read = function (fd, b, o, l, p, cb) { if (n++ < at) return realRead.apply(this, arguments); ctx.stat('failed_reads'); setImmediate(() => cb(Object.assign(new Error('EIO: injected'), { code: 'EIO' }))); };
    try { await c.rejects(readlineStream(path.join(base, f), ...(c.bool() ? [] : [() => { }])), 'stream-fails', 'a failing read'); } finally { cfs.read = realRead; } await c.drain(4); fs.rmSync(f);
    await c.rejects(readlineStream(path.join(base, c.pick(['missing', '.', '']))), 'stream-missing');
    if (process.getuid()) { fs.writeFileSync(f, 'x'); fs.chmodSync(f, 0); await c.rejects(readlineStream(path.join(base, f)), 'stream-denied'); fs.rmSync(f); }
  });
  // a callback that throws: the call rejects with its error, delivers nothing more and closes the file
  await ctx.section('callback-throws', ctx.n(60, 4), async (c, i) => {
    const n = [1, 2, 10, 30000][i % 4], f = 't.txt', at = c.int(1, Math.min(n, c.pick([1, 3, 20000]))), err = c.pick([new Error('mine'), new TypeError('type'), Object.freeze(new RangeError('frozen'))]); fs.writeFileSync(f, Array.from({ length: n }, (_, k) => 'line ' + k).join(c.pick(['\n', '\r\n']))); c.ev([n, at, err.name]);
    const fds = openFds(), got = [], out = [], stray = [], on = e => stray.push(e); process.on('uncaughtException', on); process.on('unhandledRejection', on);
    try { readlineStream(path.join(base, f), ...(c.bool() ? ['utf8'] : []), x => { got.push(x); if (got.length >= at) throw err; }).then(v => out.push(['ok', v]), e => out.push(['err', e])); const lim = performance.now() + 4000; while (!out.length && !stray.length && performance.now() < lim) await new Promise(x => setTimeout(x, 1)); await c.drain(4); await new Promise(x => setTimeout(x, 5)); } finally { process.off('uncaughtException', on); process.off('unhandledRejection', on); }
    c.ok(!stray.length, 'callback-error-escapes', () => `the error of the callback at line ${at} of ${n} is thrown elsewhere: ${stray[0]}`); c.ok(out.length === 1 && out[0][0] === 'err' && out[0][1] === err, 'callback-error', () => `a callback throwing at line ${at} of ${n}: ${out}`); c.ok(got.length === at, 'callback-goes-on', () => `${got.length} lines delivered, the callback threw at line ${at} of ${n}`);
    c.ok(await settleFds(fds) <= fds, 'stream-descriptors', 'readlineStream leaves the file open after its callback threw'); ctx.stat('callback_threw'); fs.rmSync(f);
  });
  // long texts and long first lines, many lines
  await ctx.section('sizes', 12, async (c, i) => {
    const n = [1000, 65535, 65536, 65537, 131072, 200000, 5000, 1 << 20, 16384, 32768, 300000, 70000][i], unit = ['a', '中', 'é', 'x\ty'][i % 4], first = unit.repeat(Math.ceil(n / unit.length)), s = first + ['\n', '\r\n', '\r'][i % 3] + 'second\n' + 'l\n'.repeat(n > 2e5 ? 120000 : 3) + 'end', b = Buffer.from(s), f = 'sz.txt'; fs.writeFileSync(f, b); c.ev([n, unit, i]);
    const g = await readFragment(path.join(base, f), { end: b.length - 1, firstLine: true }); c.ok(g === first, 'fragment-first-line', () => `the first line of ${first.length} characters is read as ${g?.length}`); const w = await readFragment(path.join(base, f), { end: b.length + 9 }); c.ok(w === s, 'fragment-whole', () => `${s.length} characters are read as ${w?.length}`);
    const want = s.split(/\r\n|\r|\n/), sm = x => x.length === want.length && x.every((l, k) => l === want[k]); for (const [name, lines] of [['readline', readline(s)], ['readline-buffer', readline(b)], ['readlineFromCode', readlineFromCode(s)], ['stream', await readlineStream(path.join(base, f))]]) c.ok(sm(lines), name + '-sizes', () => `${name} of ${want.length} lines, the first of ${first.length} characters, gives ${lines.length} lines`);
    let seen = 0, dones = 0; readline(s, (l, d) => { seen++; dones += d; }); c.ok(seen === want.length && dones === 1, 'callback-sizes', `${seen} calls`); fs.rmSync(f);
  });
  await ctx.section('fragment', ctx.n(2500, 12), async c => {
    const big = c.bool(0.05), s = big ? text(c, 40).repeat(3000).slice(0, 90000) : text(c, 60), f = 'fr.txt', b = Buffer.from(s); fs.writeFileSync(f, b); fs.chmodSync(f, 0o444);
    const cuts = [0]; { let o = 0; for (const ch of s) { o += Buffer.byteLength(ch); cuts.push(o); } }
    let start = c.pick([0, 0, c.pick(cuts)]), stop = c.pick(cuts); if (stop <= start) stop = b.length; const end = c.bool(0.15) ? stop - 1 + (stop === b.length ? c.int(0, 2000) : 0) : stop - 1, firstLine = c.pick([undefined, false, true]);
    c.ev([big ? b.length : s, start, end, firstLine]); const o = { end }; if (start || c.bool()) o.start = start; if (firstLine !== undefined) o.firstLine = firstLine;
    const fds = openFds();
    if (end <= 0) { c.eq(await readFragment(path.join(base, f), o.end === 0 || end < 0 ? { ...o, end: 0 } : o), undefined, 'fragment-none'); }
    else if (start > end) await c.rejects(readFragment(path.join(base, f), o), 'fragment-reversed');
    else { let want = b.subarray(start, end + 1).toString(); if (firstLine) want = want.split(/\r\n|\r|\n/)[0]; const got = await readFragment(path.join(base, f), o); c.ok(got === want, 'fragment', () => `readFragment(${q(o)}) of ${q(s).slice(0, 200)} is ${q(got)?.slice(0, 200)}, expected ${q(want).slice(0, 200)}`); ctx.stat('fragments'); }
    c.ok(await settleFds(fds) <= fds, 'fragment-descriptors', 'readFragment leaves the file open');
    c.throws(() => readFragment(path.join(base, f), { end: 5, ...c.pick([{ start: -1 }, { end: 1.5 }, { start: NaN }, { end: -3 }, { start: '1' }, { end: 2 ** 53 }]) }), 'fragment-invalid');
    if (c.bool(0.05)) await c.rejects(readFragment(path.join(base, 'nope'), { end: 3 }), 'fragment-missing');
    fs.rmSync(f);
  });
}
