import { load } from '../lib/bundle.mjs';
export const rule = 'patterns composed at random (literals, classes, groups, lookaround, empty matches, back references, named groups, unicode) with every flag combination and any lastIndex, over strings with line breaks and characters outside the BMP, called repeatedly; non-trivial: distinct pattern, flags and string';
export default async function (ctx) {
  const { execAll, mapReplace, matchNextIndex, testSome, testEvery } = load('regexp');
  const ATOM = ['a', 'b', 'A', '\\d', '\\w', '.', '[ab]', '[^a]', '中', '😀', '\\s', '\\b', '^', '$', '', '(?:)', '(?=a)', '(?!b)', '(?<=a)', '(?<!b)', 'ab', '\\n', '\\uD83D', '[😀]'];
  const QUANT = ['', '', '', '*', '+', '?', '*?', '{2}', '{0,2}', '{0}', '??'];
  function pat(c, d = 0) {
    let s = ''; for (let n = c.int(0, 3); n >= 0; n--) {
      const k = c.int(0, 9); let a;
      if (k < 6 || d > 1) a = c.pick(ATOM); else if (k < 8) a = `(${pat(c, d + 1)})`; else if (k < 9) a = `(?:${pat(c, d + 1)}|${pat(c, d + 1)})`; else a = `(?<n${c.int(0, 99)}>${pat(c, d + 1)})`;
      s += a + (/^(\\b|\^|\$|\(\?[=!<]|)$|^\(\?<?[=!]/.test(a) ? '' : c.pick(QUANT));
    } return s;
  }
  function gen(c, d = 0) { for (; ;) { let f = c.subset(['i', 'm', 's', 'd'], 0.2).join('') + c.pick(['', '', 'u', 'u', 'v']) + (c.bool(0.6) ? 'g' : '') + (c.bool(0.15) ? 'y' : ''); const p = c.bool(0.1) ? c.pick(['(?:)', 'a*', '', '\\b', '(?=)', '(a)|(b)', '(?<x>a)?b', '(.)\\1', '$']) : pat(c, d); try { return new RegExp(p, f); } catch { } } }
  const text = c => { let s = ''; for (let n = c.int(0, c.pick([0, 3, 9])); n > 0; n--) s += c.pick(['a', 'a', 'b', 'A', '1', ' ', '\n', '中', '😀', '\uD83D', '\uDE00', '_']); return s; };
  const clone = r => { const k = new RegExp(r.source, r.flags); k.lastIndex = r.lastIndex; return k; };
  const ref = (r, s) => { if (r.global) return [...s.matchAll(clone(r))]; const m = clone(r).exec(s); return m ? [m] : []; };
  const flat = ms => ms.map(m => ({ v: [...m], index: m.index, input: m.input, groups: m.groups && { ...m.groups }, indices: m.indices && m.indices.map(x => x && [...x]) }));
  await ctx.section('execAll', ctx.n(12000), async c => {
    const r = gen(c), s = text(c); if (c.bool(0.2)) r.lastIndex = c.int(0, s.length + 1); const li = r.lastIndex; c.ev([r.source, r.flags, s, li]);
    const want = ref(r, s); if (want.some(m => m[0] === '')) ctx.stat('empty_matches'); if (want.length > 1) ctx.stat('several');
    for (let k = 0; k < 2; k++) { c.eq(flat(execAll(r, s)), flat(want), k ? 'again' : 'matches', { r: String(r), s, li }); c.ok(r.lastIndex === li, 'state', () => `lastIndex of ${r} went from ${li} to ${r.lastIndex}`); }
    const id = c.pick([0, 1, 2, '0', '1', 'index', 'input', 'groups', 'length', 99]); c.eq(execAll(r, s, id).map(x => x && typeof x === 'object' ? { ...x } : x), want.map(m => m[id] && typeof m[id] === 'object' ? { ...m[id] } : m[id]), 'property', { r: String(r), s, id });
    const seen = []; const out = execAll(r, s, m => { seen.push(m); if (c.bool(0.2)) { execAll(r, s); r.test(s); r.lastIndex = li; } return c.label + m.index; });
    c.eq(flat(seen), flat(want), 'callback'); c.eq(out, want.map(m => c.label + m.index), 'callback-results');
    for (const m of want) c.ok(matchNextIndex(m) === m.index + m[0].length, 'next-index', 'matchNextIndex');
    if (want.length) { const boom = new Error('boom'); let e; try { execAll(r, s, m => { throw boom; }); } catch (x) { e = x; } c.ok(e === boom, 'throwing-callback', 'the error was lost'); c.eq(flat(execAll(r, s)), flat(want), 'after-throw'); }
    await c.throws(() => execAll(r, s, c.pick(['nope', '100', 100, -1, 1.5, '', 'lastIndex'])), 'bad-key');
  });
  // many matches, many patterns, long texts
  await ctx.section('sizes', ctx.n(40), async (c, i) => {
    const n = [100, 1000, 1025, 5000, 10001, 20000, 33000, 66000][i % 8], [r, unit] = [[/a/g, 'ab'], [/(?:)/g, 'x'], [/\b/gu, 'ab '], [/(?<k>😀)|(b)/gu, '😀b'], [/a+/y, 'a']][Math.floor(i / 8) % 5], s = unit.repeat(Math.ceil(n / unit.length)); c.ev([n, String(r)]);
    const got = execAll(r, s), want = ref(r, s); c.ok(got.length === want.length && got.every((m, k) => m.index === want[k].index && m[0] === want[k][0] && m.groups?.k === want[k].groups?.k), 'sizes', () => `${got.length} of ${want.length} matches of ${r} in a text of ${s.length}`); c.ok(r.lastIndex === 0, 'state', 'lastIndex');
    const at = execAll(r, s, 'index'); c.ok(at.length === want.length && at.every((x, k) => x === want[k].index), 'sizes-index', 'indices');
    const z = s + 'Q', m = Math.min(n, 2000), no = Array.from({ length: m }, (_, k) => new RegExp('z' + k)), yes = Array.from({ length: m }, (_, k) => /Q/); c.ok(testSome([...no, /Q/], z) && testSome([/Q$/], z) && !testSome(no, z), 'testSome', () => `${m} patterns`); c.ok(testEvery(yes, z) && !testEvery([...yes, /z/], z), 'testEvery', () => `${m} patterns`);
    const k = Math.min(n, 500), chain = Array.from({ length: k }, (_, q) => new RegExp(`<${q}>`)); c.ok(mapReplace(chain, '<0>', x => `<${+x.slice(1, -1) + 1}>`) === `<${k}>`, 'mapReplace', () => `a chain of ${k}`); c.ok(mapReplace([/a/g, /b/g], s, '-') === s.replace(/[ab]/g, '-'), 'mapReplace-long', () => `text of ${s.length}`);
  });
  await ctx.section('tests', ctx.n(6000), async c => {
    const rs = Array.from({ length: c.int(0, 4) }, () => gen(c)), s = text(c); c.ev([rs.map(String), s]);
    const one = r => { const k = clone(r); k.lastIndex = 0; return k.test(s); };
    if (!rs.length && !s) { await c.throws(() => testSome(rs, s), 'some-empty'); await c.throws(() => testEvery(rs, s), 'every-empty'); return; }
    for (let k = 0; k < 3; k++) { for (const r of rs) if (c.bool(0.3)) r.lastIndex = c.int(0, 3); c.ok(testSome(rs, s) === rs.some(one), 'testSome', () => `call ${k}: testSome(${rs}, ${JSON.stringify(s)})`); c.ok(testEvery(rs, s) === rs.every(one), 'testEvery', () => `call ${k}: testEvery(${rs}, ${JSON.stringify(s)})`); }
  });
  await ctx.section('mapReplace', ctx.n(5000), async c => {
    const rs = Array.from({ length: c.int(0, 3) }, () => gen(c, 1)), s = text(c), rep = c.pick(['x', '', '$1', '[$&]', '$$', 'ab', ...(rs.length < 2 ? ['$`', "$'"] : [])]), fn = c.bool(); c.ev([rs.map(String), s, rep]);
    const f = (m, ...a) => `<${m}${a.length}>`; let want = s; for (const r of rs) { if (want.length > 16) return void ctx.stat("too_long"); const k = clone(r); want = fn ? want.replace(k, f) : want.replace(k, rep); }
    c.ok(mapReplace(rs, s, fn ? f : rep) === want, 'mapReplace', () => `mapReplace(${rs}, ${JSON.stringify(s)}, ${fn ? 'function' : rep})`);
    if (!rs.some(r => r.sticky && !r.global)) c.ok(mapReplace(rs, s, fn ? f : rep) === want, 'mapReplace-again', 'another answer on the second call');
  });
}
