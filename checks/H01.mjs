import path from 'node:path';
import { load } from '../lib/bundle.mjs';
export const rule = 'random Windows and POSIX paths around every rule and length limit, judged by a component-wise classifier; normalisation under several home folders against what both paths denote; non-trivial: distinct paths';
export const assumptions = ['names that are reserved only in lower case or with an extension, and a final .. component, are not generated (the documentation does not settle them)'];
const BAD = ['<', '>', ':', '"', '/', '|', '?', '*', '\n'], RESERVED = ['CON', 'PRN', 'AUX', 'NUL', ...[1, 5, 9].flatMap(i => ['COM' + i, 'LPT' + i])];
export default async function (ctx) {
  const { isWindowsPath, isWindowsExtendedLengthPath, unifiedSeparator } = load('path');
  function valid(s, extend) {
    const size = extend ? 32767 : 260; if (s.length > size) return false;
    let r = s; if (r.startsWith('\\\\?\\')) { r = r.slice(4); if (r[0] === '.') return false; }
    const i = r.indexOf('\\'), head = i < 0 ? r : r.slice(0, i); if (i < 0) return false; if (!(head.length === 2 && /[a-zA-Z]/.test(head[0]) && head[1] === ':') && head !== '.' && head !== '..') return false;
    let rest = r.slice(i + 1); if (rest === '') return true; if (rest.endsWith('\\')) rest = rest.slice(0, -1);
    for (const d of rest.split('\\')) { if (!d || d === '.') return false; if (BAD.some(x => d.includes(x))) return false; if (RESERVED.includes(d)) return false; if (d.length > size - 12) return false; if (d !== '..' && d.endsWith('.')) return false; if (d.endsWith(' ')) return false; }
    return true;
  }
  const OKN = ['a', 'Program Files', 'x.txt', '.hidden', 'a..b', '中文', 'CONFIG', 'COM10', 'COM1x', 'AUXILIARY', 'NULL', 'LPT0', 'xCON', ' CON', ' NUL', 'LPT', 'COM', 'CO', 'PRNT', 'a. b', "it's", '$x', 'a&b', '()', 'a b c', '..x', '~', 'con1', '1', '-', '😀', 'a\u00e9', '..'];
  const BADN = ['', '.', 'a.', 'a ', 'x..', '...', ' ', ...RESERVED, ...BAD.map(b => 'a' + b + 'b'), ...BAD, 'CON ', 'a|'];
  const fill = (c, n) => { let s = ''; while (s.length < n) s += c.pick(['abc', 'x', 'name.ext', '中']); return s.slice(0, n).replace(/[. ]$/, 'z'); };
  const name = (c, pb) => c.bool(pb) ? c.pick(BADN) : c.bool(0.05) ? fill(c, c.pick([30, 100, 247, 248, 249, 300])) : c.pick(OKN);
  function win(c) {
    const pb = c.pick([0, 0, 0.1, 0.4]), names = Array.from({ length: c.int(0, 6) }, () => name(c, pb)); if (names.at(-1) === '..') names.push('a');
    return (c.bool(0.3) ? '\\\\?\\' : c.bool(0.05) ? c.pick(['\\\\', '\\\\.\\', '\\', ' ']) : '') + (c.bool(0.85) ? c.pick(['C:', 'c:', 'Z:', 'z:', 'd:']) : c.pick(['.', '..', '', '1:', 'CC:', 'C', '...', '中:', '@:', '[:', '`:', '{:'])) + (c.bool(0.95) ? '\\' : c.pick(['', '/'])) + names.join('\\') + (names.length && c.bool(0.2) ? '\\' : '');
  }
  const judge = (c, p, ext) => { const t0 = performance.now(), got = isWindowsPath(p, ext), dt = performance.now() - t0; c.ok(dt < 2000, 'slow', () => `isWindowsPath takes ${Math.round(dt)} ms for ${p.length} characters`); const want = valid(p, ext ?? false); c.ok(got === want, 'windows-path', () => `isWindowsPath(${JSON.stringify(p.length > 300 ? p.slice(0, 60) + `… ${p.length} characters` : p)}, ${ext}) is ${got}`); ctx.stat(want ? 'valid' : 'invalid'); return want; };
  await ctx.section('windows', ctx.n(20000, 20), async c => {
    const p = win(c), ext = c.pick([undefined, false, true]); c.ev([p, ext]); judge(c, p, ext);
    c.eq(isWindowsExtendedLengthPath(p), p.startsWith('\\\\?\\') && valid(p, true), 'extended', p);
    const u = unifiedSeparator(p), keep = p.startsWith('\\\\?\\') && valid(p, true); c.eq(u, keep ? p : p.split('\\').join('/'), 'separator', p); c.eq(unifiedSeparator(u), u, 'separator-again', p);
  });
  // many components, one of them telling
  await ctx.section('many', ctx.n(120, 10), async (c, i) => {
    const ext = i % 2 > 0, n = (ext ? [33, 65, 101, 129, 256, 257, 1000, 1025, 5000, 16000] : [17, 33, 65, 70, 99, 100, 101, 110, 120, 125])[Math.floor(i / 2) % 10], ns = Array.from({ length: n }, () => c.pick(['a', 'b', 'c'])), bad = c.pick(['', '', ...['.', '|', '?', ' ', '<', '*']]); if (bad) ns[c.pick([n - 1, n - 1, n - 2, c.int(0, n - 1)])] = bad;
    const p = (ext ? '\\\\?\\' : '') + 'C:\\' + ns.join('\\'); c.ev([n, ext, bad]); judge(c, p, ext); const u = unifiedSeparator(p); c.ok(u === (ext && valid(p, true) ? p : p.split('\\').join('/')), 'separator-many', () => `${n} components`);
  });
  // exactly at the length limits
  await ctx.section('length', ctx.n(300, 10), async c => {
    const ext = c.bool(), lim = ext ? 32767 : 260, pre = c.pick(['C:\\', '\\\\?\\C:\\', '..\\']), target = lim + c.pick([-1, 0, 1, 2, 13]); let p = pre; while (p.length < target) { const room = target - p.length, n = Math.min(room, c.pick([1, 40, 200, 247, 248])); p += fill(c, n); if (target - p.length > 1) p += '\\'; else if (target > p.length) p += 'q'; }
    c.ev([ext, pre, target, p.length]); judge(c, p, ext); if (pre[0] === '\\') { c.eq(isWindowsExtendedLengthPath(p), valid(p, true), 'extended-long', p.length); c.eq(unifiedSeparator(p) === p, valid(p, true), 'separator-long', p.length); }
  });
  // one name exactly at its limit, first, between or last
  await ctx.section('name-length', ctx.n(200, 10), async c => {
    const ext = c.bool(), n = (ext ? 32767 : 260) - 12 + c.pick([-1, 0, 0, 1, 1, 2]), pre = c.pick(['C:\\', '\\\\?\\C:\\', '.\\', '..\\']), p = pre + c.pick(['', '', 'a\\']) + fill(c, n) + c.pick(['', '', '\\', '\\b']);
    c.ev([ext, pre, n, p.length]); judge(c, p, ext); c.eq(isWindowsExtendedLengthPath(p), p.startsWith('\\\\?\\') && valid(p, true), 'extended-name', p.length);
  });
  await ctx.section('hostile', ctx.n(60, 10), async c => { const p = c.pick(['C:\\', '\\\\?\\C:\\', '..\\']) + c.pick(['a', '. ', 'a.', '\\a', 'CON', ' ', 'a ', '\u3000']).repeat(c.pick([20, 40, 200, 10000])) + c.pick([' ', '.', '\n', '', '|']); c.ev(p); const t0 = performance.now(); isWindowsPath(p, true); isWindowsPath(p); isWindowsExtendedLengthPath(p); unifiedSeparator(p); const dt = performance.now() - t0; c.ok(dt < 3000, 'slow', () => `${p.length} characters take ${Math.round(dt)} ms`); });
  // normalisation
  const oldHome = process.env.HOME;
  for (const home of ['/home/user', '/', '/ho$&me/$1', '/home/with space', '/a', oldHome ?? '/root']) {
    process.env.HOME = home; const { normalize } = load('path');
    await ctx.section('normalize ' + home, ctx.n(1500, 15), async c => {
      const seg = () => c.pick(['a', 'b', '..', '.', '', 'x y', '中', '~', '.h', '...', 'a.b', '~x', '$&']), s = c.pick(['', '/', './', '../', '~', '~/', '~\\', '~\\b/', '~/../', '/~/', '~x/', 'a/', './a/', '//']) + Array.from({ length: c.int(0, 6) }, seg).join('/') + c.pick(['', '', '/', '//']); c.ev(s);
      const ex = s === '~' || s.startsWith('~/') || s.startsWith('~\\') ? home + s.slice(1) : s, got = normalize(s), abs = x => path.posix.resolve('/cwd/one/two/three/four/five/six', x);
      c.eq(got, path.posix.normalize(ex), 'normalize', s); c.eq(abs(got), abs(ex), 'denotes', s); if (!/^~($|[\/\\])/.test(got)) c.eq(normalize(got), got, 'idempotent', s);
      if (s && ex.endsWith('/')) c.ok(got.endsWith('/'), 'trailing', () => `normalize(${s}) is ${got}`);
    });
  }
  await ctx.section('invalid', 4, async (c, i) => { const { normalize } = load('path'); c.ev(i); c.throws(() => normalize([undefined, null, 5, {}][i]), 'invalid'); });
  if (oldHome === undefined) delete process.env.HOME; else process.env.HOME = oldHome;
}
