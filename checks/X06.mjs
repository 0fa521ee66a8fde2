import fs from 'node:fs';
import path from 'node:path';
import { load, scratch } from '../lib/bundle.mjs';
export const rule = 'random text, bytes, objects and arrays written with every option to new, existing, nested, read-only and occupied paths, and read back in every encoding; non-trivial: distinct (data, options, place)';
export const assumptions = ['runs as an unprivileged user in a scratch directory with the usual file creation mask'];
export default async function (ctx) {
  const { writeFile, readFile, mkdir } = load('fs');
  const base = path.join(scratch(), 'x06'); fs.mkdirSync(base); fs.chmodSync(base, 0o777); ctx.unprivileged(); process.chdir(base); process.umask(0o022);
  const str = c => { let s = ''; for (let n = c.int(0, c.pick([0, 5, 40])); n > 0; n--) s += c.pick(['a', 'Z', '1', ' ', '\n', '\r\n', 'é', '中', '😀', '\ufeff', '"', '\\', '\0', '{', '$&']); return c.bool(0.05) ? s.repeat(5000) : s; };
  const val = (c, d) => { const k = c.int(0, d > 0 ? 8 : 5); return k === 0 ? str(c).slice(0, 20) : k === 1 ? c.int(-5, 1e6) / c.pick([1, 4]) : k === 2 ? c.bool() : k === 3 ? null : k === 4 ? '' : k === 5 ? 'x' : k < 7 ? Array.from({ length: c.int(0, 4) }, () => val(c, d - 1)) : Object.fromEntries(Array.from({ length: c.int(0, 4) }, (_, i) => [c.pick(['a', 'b', '中', 'x y', '__p', '0']) + i, val(c, d - 1)])); };
  let no = 0;
  await ctx.section('write-read', ctx.n(4000, 12), async c => {
    const dir = path.join(base, 'd' + no++), kind = c.pick(['text', 'text', 'bytes', 'object', 'array']), place = c.pick(['new', 'new', 'existing', 'nested', 'nested']), f = path.join(dir, place === 'nested' ? c.pick(['n/f', 'n/m/o/f.json']) : c.pick(['f', '中 文.txt', '.x']));
    fs.mkdirSync(dir); const rel = c.bool(0.3), P = rel ? path.relative(process.cwd(), f) : f;
    const enc = c.pick([undefined, undefined, 'utf8', 'utf16le', 'latin1', 'base64', 'hex']), flag = c.pick([undefined, undefined, 'w', 'a', 'wx']), isFormat = c.pick([undefined, undefined, true, false]), isMkdir = place === 'nested' ? c.pick([true, true, false]) : c.pick([undefined, true, false]), mode = c.pick([undefined, 0o600, 0o644]);
    let data = kind === 'text' ? enc === 'hex' ? Buffer.from(str(c)).toString('hex') : enc === 'base64' ? Buffer.from(str(c)).toString('base64') : enc === 'latin1' ? str(c).replace(/[^\0-\xff]/g, 'ÿ') : str(c) : kind === 'bytes' ? c.pick([x => x, x => new Uint8Array(x)])(Buffer.from(str(c))) : kind === 'object' ? Object.fromEntries(Array.from({ length: c.int(0, 5) }, (_, i) => ['k' + i, val(c, 3)])) : Array.from({ length: c.int(0, 5) }, () => val(c, 3)); if ((kind === 'object' || kind === 'array') && c.bool(0.15)) { const as = val(c, 1), date = new Date(c.int(0, 2e12)); if (kind === 'array') data.push({ a: 1, toJSON: () => as }, date); else if (c.bool()) data = { ...data, when: date, inner: { toJSON: () => as } }; else data = { ...data, toJSON: () => ({ as }) }; }
    const o = {}; if (enc !== undefined) o.encoding = enc; if (flag !== undefined) o.flag = flag; if (isFormat !== undefined) o.isFormat = isFormat; if (isMkdir !== undefined) o.isMkdir = isMkdir; if (mode !== undefined) o.mode = mode;
    const old = place === 'existing' ? Buffer.from('previous content '.repeat(c.int(0, 9))) : null; if (old) fs.writeFileSync(f, old);
    c.ev([kind, typeof data === 'string' ? data.slice(0, 80) : data, o, place]);
    const json = (kind === 'object' || kind === 'array') && isFormat !== false, arg = JSON.stringify(data);
    let bytes = kind === 'text' ? Buffer.from(data, enc ?? 'utf8') : kind === 'bytes' ? Buffer.from(data) : json ? Buffer.from(JSON.stringify(data), ['utf8', 'utf16le', 'latin1', undefined].includes(enc) ? enc ?? 'utf8' : enc) : null;
    const noDir = place === 'nested' && isMkdir !== true, fails = noDir || (flag === 'wx' && old) || (kind === 'object' && !json), unspec = kind === 'array' && !json || json && enc && !enc.startsWith('utf');
    let err, r; try { r = await writeFile(P, data, Object.keys(o).length || c.bool() ? o : undefined); } catch (e) { err = e; }
    if (unspec) return fs.rmSync(dir, { recursive: true });
    c.ok(!!err === !!fails, fails ? 'must-reject' : 'failed', () => `writeFile of ${kind} (${JSON.stringify(o)}, ${place}) ${err ? 'rejected: ' + err.message : 'resolved'}`);
    if (arg !== undefined) c.eq(JSON.stringify(data), arg, 'data-changed');
    if (err) { ctx.stat('rejected'); if (old && flag === 'wx') c.ok(fs.readFileSync(f).equals(old), 'kept', 'a rejected write changed the file'); if (noDir) c.ok(!fs.existsSync(path.dirname(f)), 'no-dir', 'a folder was made that was not asked for'); return fs.rmSync(dir, { recursive: true }); }
    c.eq(r, undefined, 'result'); if (flag === 'a' && old) bytes = Buffer.concat([old, bytes]);
    const disk = fs.readFileSync(f); c.ok(disk.equals(bytes), 'bytes', () => `writeFile of ${kind} (${JSON.stringify(o)}, ${place}) left ${JSON.stringify(disk.toString()).slice(0, 200)}, expected ${JSON.stringify(bytes.toString()).slice(0, 200)}`);
    if (!old) c.eq((fs.statSync(f).mode & 0o777).toString(8), ((mode ?? 0o755) & ~0o022).toString(8), 'mode');
    const re = c.pick([undefined, 'utf8', 'latin1', 'base64', 'utf16le']), ro = re === undefined ? c.pick([undefined, {}]) : { encoding: re }; const got = await readFile(c.pick([P, new URL('file://' + encodeURI(f))]), ro); c.ok(got === bytes.toString(re ?? 'utf8'), 'read', () => `readFile (${re}) is ${JSON.stringify(got).slice(0, 200)}`);
    if (kind === 'text' && flag !== 'a' && (enc ?? 'utf8') !== 'hex') c.ok(await readFile(P, enc ? { encoding: enc } : undefined) === data.replace(/^$/, ''), 'round-trip', () => `the text read back differs (${enc})`);
    if (json && flag !== 'a') c.eq(JSON.parse(disk.toString(enc ?? 'utf8')), JSON.parse(arg), 'json');
    ctx.stat('written_' + kind); fs.rmSync(dir, { recursive: true });
  });
  // large values: every size class of list and object, deep nesting
  await ctx.section('large', ctx.n(60, 8), async c => {
    const f = path.join(base, 'l' + no++), n = c.pick([99, 100, 101, 128, 255, 256, 1000, 5000]), kind = c.int(0, 3);
    const v = kind === 0 ? Array.from({ length: n }, () => val(c, 1)) : kind === 1 ? Object.fromEntries(Array.from({ length: n }, (_, i) => ['k' + i, val(c, 1)])) : kind === 2 ? Array.from({ length: Math.min(n, 900) }).reduce(a => c.bool() ? [a] : { a }, 1) : str(c).repeat(n);
    c.ev([kind, n, JSON.stringify(v).length]); await writeFile(f, v); const want = typeof v === 'string' ? v : JSON.stringify(v);
    c.ok(fs.readFileSync(f).equals(Buffer.from(want)), 'bytes', () => `writeFile of a large value (kind ${kind}, ${n} items) left ${fs.readFileSync(f, 'utf8').length} characters of ${want.length}`); c.ok(await readFile(f) === want, 'read', 'readFile of a large file differs'); ctx.statMax('largest', want.length); fs.unlinkSync(f);
  });
  await ctx.section('failing', ctx.n(400, 8), async c => {
    const dir = path.join(base, 'e' + no++); fs.mkdirSync(dir); const f = path.join(dir, 'f'), k = c.pick(['cyclic', 'bigint', 'is-dir', 'read-only', 'no-perm', 'missing', 'unwritable-dir', 'read-dir', 'file-in-way']); c.ev([k, no % 8]); fs.writeFileSync(f, 'old');
    if (k === 'cyclic') { const x = { a: [] }; x.a.push(x); await c.rejects(writeFile(f, x), 'cyclic'); c.eq(fs.readFileSync(f, 'utf8'), 'old', 'cyclic-kept'); }
    if (k === 'bigint') { await c.rejects(writeFile(f, { a: 1n }), 'bigint'); c.eq(fs.readFileSync(f, 'utf8'), 'old', 'bigint-kept'); }
    if (k === 'is-dir') await c.rejects(writeFile(dir, 'x'), 'is-dir');
    if (k === 'read-only' && process.getuid()) { fs.chmodSync(f, 0o444); await c.rejects(writeFile(f, 'x'), 'read-only'); c.eq(fs.readFileSync(f, 'utf8'), 'old', 'read-only-kept'); c.eq(await readFile(f, { flag: 'r' }), 'old', 'read-flag'); }
    if (k === 'no-perm' && process.getuid()) { fs.chmodSync(f, 0); await c.rejects(readFile(f), 'no-perm'); }
    if (k === 'missing') { await c.rejects(readFile(path.join(dir, 'none')), 'missing'); c.ok(!fs.existsSync(path.join(dir, 'none')), 'missing-created', 'readFile created a file'); }
    if (k === 'unwritable-dir' && process.getuid()) { fs.chmodSync(dir, 0o555); await c.rejects(writeFile(path.join(dir, 'n/f'), 'x', { isMkdir: true }), 'unwritable'); await c.rejects(mkdir(path.join(dir, 'm')), 'unwritable-mkdir'); fs.chmodSync(dir, 0o755); c.eq(fs.readdirSync(dir), ['f'], 'unwritable-left'); }
    if (k === 'read-dir') await c.rejects(readFile(dir), 'read-dir');
    if (k === 'file-in-way') { await c.rejects(mkdir(path.join(f, 'x')), 'in-way'); await c.rejects(writeFile(path.join(f, 'x'), 'y', { isMkdir: true }), 'in-way'); c.eq(fs.readFileSync(f, 'utf8'), 'old', 'in-way-kept'); }
    ctx.stat('failing_' + k); fs.rmSync(dir, { recursive: true });
  });
  await ctx.section('mkdir', ctx.n(400, 8), async c => {
    const dir = path.join(base, 'm' + no++), sub = c.pick(['a', 'a/b', 'a/b/c/d', '中 文/x', 'a/b/', 'a/b/c/d//']), o = c.pick([undefined, {}, { recursive: true }, { recursive: false }, { mode: 0o700 }]); fs.mkdirSync(dir); c.ev([sub, o]);
    const t = path.join(dir, sub); if (o?.recursive === false && sub.includes('/')) { await c.rejects(mkdir(t, o), 'mkdir-parent'); c.eq(fs.readdirSync(dir), [], 'mkdir-left'); }
    else { await mkdir(t, o); for (let p = t; p !== dir; p = path.dirname(p)) c.ok(fs.statSync(p).isDirectory() && (fs.statSync(p).mode & 0o700) === 0o700, 'mkdir', `folder ${p} cannot be entered by its owner`); fs.writeFileSync(path.join(t, 'f'), 'x'); if (o?.recursive !== false) { await mkdir(t, o); c.eq(fs.readdirSync(t), ['f'], 'mkdir-again'); } else await c.rejects(mkdir(t, o), 'mkdir-exists'); ctx.stat('folders'); }
    fs.rmSync(dir, { recursive: true });
  });
  // several writers of different files at the same time in the same new folder
  await ctx.section('concurrent', ctx.n(60, 8), async c => { const dir = path.join(base, 'c' + no++), n = c.int(2, 12); await Promise.all(Array.from({ length: n }, (_, i) => writeFile(path.join(dir, 'x/y', 'f' + i), { i }, { isMkdir: true }))); c.ev([n, no % 64]); for (let i = 0; i < n; i++) c.eq(await readFile(path.join(dir, 'x/y', 'f' + i)), `{"i":${i}}`, 'concurrent'); fs.rmSync(dir, { recursive: true }); });
}
