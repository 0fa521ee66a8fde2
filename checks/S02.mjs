import { load } from '../lib/bundle.mjs';
export const rule = 'every listed space-like character alone, and random strings of listed characters, neighbours of them, letters and metacharacters with every option combination and random extra characters; non-trivial: distinct (string, options, extras)';
export const assumptions = ['the zero-width, space-like and control groups are the documented ones'];
const ZW = [0xFEFF, 0x200B, 0x200C, 0x200D, 0x200E, 0x200F, 0x202A, 0x202B, 0x202C, 0x202D, 0x202E, 0x2060, 0x2061, 0x2062, 0x2063, 0x2064, 0x2066, 0x2067, 0x2068, 0x2069, 0x206A, 0x206B, 0x206C, 0x206D, 0x206E, 0x206F].map(x => String.fromCharCode(x));
const LS = [0xA0, 0x205F, 0x202F, 0x3000, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200A].map(x => String.fromCharCode(x));
const CT = ['\u2028', '\u2029', '\t', '\r', '\n', '\f', '\v', '\b', '\x85'];
export default async function (ctx) {
  const S = load('string');
  const hex = s => [...s].map(x => /[!-~]/.test(x) ? x : 'U+' + x.codePointAt(0).toString(16)).join(' ');
  const start = (s, set) => { const a = [...s]; let i = 0; while (i < a.length && set.has(a[i])) i++; return a.slice(i).join(''); };
  const end = (s, set) => { const a = [...s]; let i = a.length; while (i > 0 && set.has(a[i - 1])) i--; return a.slice(0, i).join(''); };
  const all = (s, set) => [...s].filter(x => !set.has(x)).join('');
  const META = [...']^\\-[.*+?(){}|$/'], OTHER = ['a', 'B', '0', 'é', '中', '😀', '᠎', '', '\u2065', 'u', 'x', 'd', 's', 'w', 'n', 't', 'b', '2', '8', '_', '\0', '\x1f'];
  const ALL = [' ', ...ZW, ...LS, ...CT];
  const ch = c => c.bool(0.55) ? c.pick(c.bool(0.4) ? [' ', '\n', '\t', '\u200B', '\u3000'] : ALL) : c.bool(0.5) ? c.pick(META) : c.bool(0.9) ? c.pick(OTHER) : String.fromCharCode(c.pick(ALL).charCodeAt(0) + c.pick([-1, 1]));
  const str = c => { let s = ''; for (let n = c.int(0, c.pick([2, 6, 15])); n > 0; n--) s += ch(c).repeat(c.bool(0.8) ? 1 : c.bool(0.97) ? c.int(1, 4) : c.pick([64, 130, 257, 600])); return c.bool(0.004) ? s + c.str(1, 3, 'abz ').repeat(1500) + s : s; };
  await ctx.section('groups', 1, async c => {
    for (let x = 0; x < 0x10000; x++) {
      if (x >= 0xD800 && x <= 0xDFFF) continue;
      const s = String.fromCharCode(x), z = ZW.includes(s), l = LS.includes(s), k = CT.includes(s);
      c.ok(S.isSpaceString(s) === (s === ' ' || z || l || k), 'isSpaceString-char', () => `isSpaceString(${hex(s)}) is ${S.isSpaceString(s)}`);
      for (const [n, w] of [['ZeroWidth', z], ['LikeSpace', l], ['Control', k]]) for (const e of ['', 'Start', 'End']) { const got = S['rm' + n + e](s); c.ok(got === (w ? '' : s), 'rm-char', () => `rm${n}${e}(${hex(s)}) is ${hex(got)}`); }
      ctx.stat('characters');
    }
  });
  // long runs of a character that is asked for more than once, or that a selected group holds already
  await ctx.section('repeated', 24, async (c, i) => {
    const [o, extras] = [[{}, ' '], [{}, '\t\u200b'], [{ space: false }, '--'], [undefined, ['ab', 'ba', 'a']], [{}, ['\u3000', '\n', '\r\n']], [{ space: false, zeroWidth: false, likeSpace: false, control: false }, '\\\\]]']][i % 6], ch = [...extras][0][0], n = [30, 60, 200, 2000][i / 6 | 0];
    const set = new Set([...extras].flatMap(x => [...x])); for (const [k, g] of [['space', [' ']], ['zeroWidth', ZW], ['likeSpace', LS], ['control', CT]]) if (o?.[k] !== false) g.forEach(x => set.add(x)); const run = ch.repeat(n), s = `${run}龘${run}龘x`; c.ev([o, extras, n]);
    for (const [f, r] of [['trimStart', start(s, set)], ['trimEnd', end(s, set)], ['trim', end(start(s, set), set)], ['trimAll', all(s, set)]]) { const got = S[f](s, o, extras); c.ok(got === r, f, () => `${f} of long runs is ${hex(got)}`); }
    c.eq([S.isSpaceString(run + '龘', o, extras), S.isSpaceString(run, o, extras)], [false, true], 'isSpaceString');
  });
  await ctx.section('trim', ctx.n(12000), async c => {
    const s0 = str(c), s = c.bool(0.997) ? s0 : s0 + (' a\u200b'.repeat(6) + '龘'.repeat(3)).repeat(c.pick([40, 400, 6000])) + s0, o = {}, set = new Set();
    for (const [k, g] of [['space', [' ']], ['zeroWidth', ZW], ['likeSpace', LS], ['control', CT]]) { const v = c.pick([true, true, false, undefined]); if (v !== undefined) o[k] = v; if (v !== false) g.forEach(x => set.add(x)); }
    let extras; if (c.bool(0.6)) { const xs = Array.from({ length: c.bool(0.97) ? c.int(0, 5) : c.pick([15, 20, 40, 100]) }, () => c.bool(0.6) ? c.pick(META) : c.bool(0.8) ? c.pick(OTHER) : c.pick(ALL)).map(x => c.bool(0.1) ? x + c.pick(META) + c.pick(OTHER) + (c.bool(0.3) ? '#%@~' : '') : x); xs.forEach(x => set.add(x)); for (const x of xs) for (const y of x) set.add(y); extras = c.bool() ? xs.join('') : xs; }
    const opts = c.bool(0.1) && Object.values(o).every(Boolean) ? undefined : o, d = () => `${hex(s)}, ${JSON.stringify(opts)}, ${JSON.stringify(extras)}`;
    c.ev([s, o, extras]);
    for (const [f, r] of [['trimStart', start(s, set)], ['trimEnd', end(s, set)], ['trim', end(start(s, set), set)], ['trimAll', all(s, set)]]) { const got = S[f](s, opts, extras); c.ok(got === r, f, () => `${f}(${d()}) is ${hex(got)}, expected ${hex(r)}`); }
    const sp = s !== '' && [...s].every(x => set.has(x)), got = S.isSpaceString(s, opts, extras); ctx.stat(sp ? 'all_space' : 'not_all_space');
    c.ok(got === sp, 'isSpaceString', () => `isSpaceString(${d()}) is ${got}`);
  });
  await ctx.section('rm', ctx.n(6000), async c => {
    const s = str(c); c.ev(s);
    for (const [n, g] of [['ZeroWidth', ZW], ['LikeSpace', LS], ['Control', CT]]) {
      const set = new Set(g), want = { Start: start(s, set), End: end(s, set), '': n === 'LikeSpace' ? [...end(start(s, set), set)].map(x => set.has(x) ? ' ' : x).join('') : all(s, set) };
      for (const e in want) for (let k = 0; k < 2; k++) { const got = S['rm' + n + e](s); c.ok(got === want[e], `rm${n}${e}`, () => `rm${n}${e}(${hex(s)}) is ${hex(got)}, expected ${hex(want[e])}`); }
    }
    const t = (c.bool() ? ' ' : '\t').repeat(c.bool(0.97) ? c.int(0, 6) : c.pick([64, 256, 300, 1100])) + s, cnt = x => { let i = 0; while (t[i] === x) i++; return i; };
    c.eq(S.startSpacesLength(t), cnt(' '), 'startSpacesLength', hex(t)); c.eq(S.startTabsLength(t), cnt('\t'), 'startTabsLength', hex(t));
  });
  // subSpaces: nothing but single spaces beside matches is added
  await ctx.section('subSpaces', ctx.n(5000), async c => {
    const A = ['a', 'Z', '中', '文', ' ', ',', '，', '。', '!', '1', '2', '33', '(', ')', '\n', '\t', 'é', '😀', '-', '_'], P = /[ -\/:-@\[-`{-~\u2000-\u206f\u3000-\u303f\uff00-\uffef]/;
    let s = ''; for (let n = c.int(0, 14); n > 0; n--) s += c.pick(A);
    const re = c.pick([() => /\d+/g, () => /\d+/, () => /(?<n>\d+)/g, () => /(\d)(\d)?/g, () => /(?<x>[a-z])|(?<y>\d)/gi, () => /\d+(?=\D|$)/g, () => /(?=\d)/g, () => /[a-z]*/g, () => /文|\d/u, () => /\d/y, () => /(?<=a)|中/g]), h = c.bool() ? v => '`' + v + '`' : undefined;
    c.ev([s, String(re()), !!h]); const got = S.subSpaces(s, re(), h); let want = '', last = 0;
    const ms = re().global ? [...s.matchAll(re())] : [s.match(re())].filter(Boolean);
    for (const m of ms) { const l = s[m.index - 1], r = s[m.index + m[0].length]; want += s.slice(last, m.index) + (l && !P.test(l) ? ' ' : '') + (h ? h(m[0]) : m[0]) + (r && !P.test(r) ? ' ' : ''); last = m.index + m[0].length; }
    want += s.slice(last); c.ok(got === want, 'subSpaces', () => `subSpaces(${JSON.stringify(s)}, ${re()}) is ${JSON.stringify(got)}, expected ${JSON.stringify(want)}`);
    ctx.stat('sub_matches', ms.length);
  });
}
