import { load } from '../lib/bundle.mjs';
export const rule = 'random strings over letters of both cases, metacharacters and white space, with chunk lists cut from them or made up, and valid and invalid positions; non-trivial: distinct (string, chunks, options)';
export const assumptions = ['ignoring case compares UTF-16 units like the platform does for the i flag'];
export default async function (ctx) {
  const { notStarts, startsSlice, frontOf, behindOf, matchOrder, matchSplit, multiReplace, word, wordStart, wordEnd } = load('string');
  const AL = ['a', 'A', 'b', 'B', '.', '*', '+', '?', '(', ')', '[', ']', '^', '$', '|', '\\', '/', '-', '{', '}', ' ', '\n', 'é', 'É', '中', '😀', '\t', '1', '\u3000', 'ſ', 's'];
  const str = (c, m) => { let s = ''; for (let n = c.int(0, m); n > 0; n--) s += c.bool(0.5) ? c.pick(['a', 'A', 'b', ' ']) : c.pick(AL); return s; };
  const up = x => { const u = x.toUpperCase(); return u.length !== 1 || (x >= '\x80' && u < '\x80') ? x : u; };
  const canon = s => s.split('').map(up).join('');
  const swap = s => s.replace(/[a-zA-Z]/g, x => x === x.toUpperCase() ? x.toLowerCase() : x.toUpperCase());
  const chunk = (c, s) => { if (c.bool(0.6) && s) { const i = c.int(0, s.length), x = s.slice(i, c.int(i, Math.min(s.length, i + 5))); return c.bool(0.4) ? swap(x) : x; } return str(c, 4); };
  const BAD = [-1, 1.5, NaN, Infinity, '1', null];
  await ctx.section('search', ctx.n(20000), async c => {
    const s = c.bool(0.01) ? str(c, 25).repeat(c.pick([10, 60, 300])) : str(c, c.pick([0, 3, 10, 25])), chunks = Array.from({ length: c.bool(0.99) ? c.int(0, 4) : c.pick([9, 17, 33, 65, 129, 300]) }, (_, i) => i < 4 || c.bool(0.1) ? chunk(c, s) : '?' + str(c, 2) + 'zz'), o = {};
    if (c.bool(0.7)) o.position = c.int(0, s.length); const ci = c.pick([undefined, true, false, false]); if (ci !== undefined) o.caseSensitivity = ci;
    if (chunks.length && c.bool(0.3)) { const x = s.slice(o.position ?? 0), k = x.slice(0, c.int(1, 4)); chunks[c.int(0, chunks.length - 1)] = ci === false && c.bool() ? swap(k) : k; }
    const opts = Object.keys(o).length || c.bool() ? o : undefined, pos = o.position ?? 0, f = ci === false ? canon : x => x, d = () => `(${JSON.stringify(s)}, ${JSON.stringify(chunks)}, ${JSON.stringify(opts)})`;
    c.ev([s, chunks, o]);
    const triv = !s || !chunks.length, st = chunks.some(x => f(s.slice(pos)).startsWith(f(x)));
    const has = (t, x) => f(t).includes(f(x));
    const want = { notStarts: triv || !st, frontOf: !triv && chunks.some(x => has(s.slice(0, o.position === undefined ? s.length : pos + 1), x)), behindOf: !triv && chunks.some(x => has(s.slice(pos), x)) };
    for (const [n, fn] of [['notStarts', notStarts], ['frontOf', frontOf], ['behindOf', behindOf]]) { const got = fn(s, chunks, opts); c.ok(got === want[n], n, () => `${n}${d()} is ${got}`); ctx.stat(`${n}_${got}`); }
    const ch = chunks[0] ?? '', so = { ...o, ...(c.bool() ? { preserve: c.bool() } : {}) };
    const hit = f(s.slice(pos)).startsWith(f(ch)), ws = hit ? (so.preserve ? s.slice(0, pos) : '') + s.slice(pos + ch.length) : s, gs = startsSlice(s, ch, so);
    c.ok(gs === ws, 'startsSlice', () => `startsSlice(${JSON.stringify([s, ch, so])}) is ${JSON.stringify(gs)}, expected ${JSON.stringify(ws)}`);
    const bad = { ...o, position: c.bool(0.3) ? s.length + c.int(1, 3) : c.pick(BAD) };
    c.throws(() => startsSlice(s, ch, bad), 'startsSlice-invalid', `position ${bad.position}`);
    if (!triv) c.throws(() => notStarts(s, chunks, bad), 'notStarts-invalid', `position ${bad.position}`);
  });
  const RES = [/a/, /b+/, /\d/, /(a)(b)?/, /[.*+]/, /^a/, /b$/, /\s+/, /é/i, /zz/, /\(/, /(?<n>A)/, /a|$/, /b*/, /(?=A)/, /(?:)/, /$/, /(?<!^)\b/, /A/y];
  const clone = r => new RegExp(r.source, r.flags);
  await ctx.section('match', ctx.n(8000), async c => {
    const s = str(c, 12), rs = Array.from({ length: c.int(0, 4) }, () => clone(c.pick(RES)));
    c.ev([s, rs.map(String)]);
    let w = null; if (s) for (const r of rs) if ((w = s.match(clone(r)))) break;
    const g = matchOrder(s, rs); c.ok(w === null ? g === null : g && g.index === w.index && g[0] === w[0] && g.length === w.length && [...g].every((x, i) => x === w[i]), 'matchOrder', () => `matchOrder(${JSON.stringify(s)}, ${rs}) is ${JSON.stringify(g)}`);
    const r = clone(c.pick(RES)), m = s.match(clone(r)), got = matchSplit(s, r), ws = s && m ? [s.slice(0, m.index), m[0], s.slice(m.index + m[0].length)] : [];
    c.eq(got, ws, 'matchSplit', [s, String(r)]);
    // multiReplace: rules one after the other
    const rules = Array.from({ length: c.int(0, 4) }, () => { const x = c.bool() ? chunk(c, s) : c.pick([() => /a/g, () => /[A-Z]/, () => /\s/g, () => /(b)/g, () => /./gs])(), y = c.pick(['', 'x', 'a', '$&$&', '$1', '$$', '$$1$$$', '$`', "$'", '$0', '\\$&', v => `<${v}>`, (v, i) => typeof i === 'number' ? String(i) : v.toUpperCase()]); return c.bool() ? [x, y] : { match: x, replacer: y }; });
    let mw = s; for (const u of rules) { const [x, y] = Array.isArray(u) ? u : [u.match, u.replacer]; mw = mw.replace(typeof x === 'string' ? x : clone(x), y); }
    c.eq(multiReplace(s, rules), mw, 'multiReplace', [s, rules.map(String)]);
  });
  await ctx.section('word', ctx.n(8000), async c => {
    let s = ''; for (let n = c.int(0, 14); n > 0; n--) s += (c.bool(0.5) ? c.pick([' ', '\n', '\t', '\u3000', '\u00a0']) : c.pick(['a', 'b', '中', '.', '\u200b', '1', '_', '-', '$', "'", '\\', '😀', '\0', 'Z'])).repeat(c.bool(0.995) ? 1 : c.pick([65, 101, 260, 1100]));
    const p = c.bool(0.3) ? Math.max(0, s.length - c.int(0, 3)) : c.int(0, s.length + 2); c.ev([s, p]);
    let l = null, r = null; for (let i = p; i < s.length; i++) if (!/\s/.test(s[i])) { l ??= i; r = i; }
    c.eq(wordStart(s, p), l, 'wordStart', [s, p]); c.eq(wordEnd(s, p), r, 'wordEnd', [s, p]); c.eq(word(s, p), r === null ? null : { left: l, right: r }, 'word', [s, p]);
    if (p === 0) { c.eq(wordStart(s), l, 'wordStart'); c.eq(wordEnd(s), r, 'wordEnd'); }
    const b = c.pick(BAD.filter(x => x !== null)); for (const f of [word, wordStart, wordEnd]) c.throws(() => f(s, b), 'word-invalid', `${f.name} position ${b}`);
  });
}
