import { load } from '../lib/bundle.mjs';
export const rule = 'every ASCII character alone and random strings over all metacharacters, line ends and unicode, against texts made of pieces of them, with every flag set; non-trivial: distinct (string, flags, text)';
export const assumptions = ['ignoring case is that of the platform for the same literal; letters whose folding differs with the u flag are left out'];
export default async function (ctx) {
  const { toRegExp, toRegExpSource } = load('string');
  const META = [...'[](){}^$.?*+|\\/-'], OTHER = ['a', 'A', 'b', 'd', 'n', 'u', 'x', '0', '1', '\n', '\r', '\u2028', '\0', ' ', ',', ':', '=', '!', '<', '>', '#', '&', '~', '%', '_', '@', '`', "'", '"', ';', 'é', 'É', '中', '😀', '𝒳', '\u200d', 'e\u0301', '\u0301', '\u212b', 'A\u030a', '\u1100\u1161', '\uac00', '\ufb01', '－', '①'];
  const canon = s => [...s].map(x => { const u = x.toUpperCase(); return u.length === 1 ? u : x; }).join('');
  const str = (c, lo, hi) => { let s = ''; for (let n = c.int(lo, hi); n > 0; n--) s += c.bool(0.6) ? c.pick(META) : c.pick(OTHER); return s; };
  const swap = s => s.replace(/[a-zé]/gi, x => x === x.toUpperCase() ? x.toLowerCase() : x.toUpperCase());
  const FL = []; for (let m = 0; m < 32; m++) FL.push([...'gimuy'].filter((_, i) => m >> i & 1).join(''));
  const find = (t, s, ci, from) => ci ? canon(t).indexOf(canon(s), from) : t.indexOf(s, from);
  function one(c, s, flags, t) {
    const ci = flags.includes('i'), d = () => JSON.stringify([s, flags, t]);
    const r = toRegExp(s, flags); c.ok(r instanceof RegExp && [...r.flags].sort().join('') === [...flags].sort().join(''), 'flags', () => `${d()}: flags ${r.flags}`);
    const got = [], want = [];
    if (flags.includes('g') || flags.includes('y')) {
      let m; while ((m = r.exec(t)) && got.length < 500) got.push([m.index, m[0]]);
      for (let i = 0; (i = find(t, s, ci, i)) >= 0;) { if (flags.includes('y') && i !== (want.length ? want.at(-1)[0] + s.length : 0)) break; want.push([i, t.slice(i, i + s.length)]); i += s.length; }
    } else { const m = r.exec(t), i = find(t, s, ci, 0); if (m) got.push([m.index, m[0]]); if (i >= 0) want.push([i, t.slice(i, i + s.length)]); }
    c.eq(got, want, 'matches', [s, flags, t]); ctx.stat('matches', want.length);
  }
  const text = (c, s) => { let t = ''; for (let n = c.int(0, 6); n > 0; n--) t += c.bool(0.4) ? s : c.bool(0.3) ? swap(s) : c.bool(0.3) ? [...s].slice(0, -1).join('') : str(c, 0, 3); return t; };
  await ctx.section('single', 128, async (c, i) => { const s = String.fromCharCode(i); c.ev(s); for (const f of FL) { one(c, s, f, s); let t = ''; for (let x = 0; x < 128; x++) t += String.fromCharCode(x); one(c, s, f, t + s); } c.eq(toRegExp(s).flags, 'g', 'default-flags'); });
  await ctx.section('random', ctx.n(12000), async c => { const s = str(c, 1, c.pick([1, 3, 8])), f = c.pick(FL), g = c.shuffle([...f]).join(''), t = text(c, s); c.ev([s, g, t]); one(c, s, g, t); });
  await ctx.section('embedded', ctx.n(8000), async c => {
    const s = str(c, 1, 4), src = toRegExpSource(s), u = c.pick(['', 'u', 's', 'us']); c.ev([s, u]);
    const mk = p => new RegExp(p, u), n = c.int(1, 4), no = str(c, 0, 4);
    c.ok(mk(`^(?:${src})+$`).test(s.repeat(n)), 'repeat', () => `${JSON.stringify(s)} repeated ${n} times is not matched`);
    if (no !== s) c.ok(!mk(`^(?:${src})$`).test(no), 'only', () => `the pattern of ${JSON.stringify(s)} matches ${JSON.stringify(no)}`);
    c.ok(mk(`^x${src}y$`).test(`x${s}y`), 'between', () => `x${JSON.stringify(s)}y is not matched`);
    c.ok(mk(`(${src})(z)`).exec(`${no}${s}z`)?.[2] === 'z', 'groups', () => `the pattern of ${JSON.stringify(s)} changes the groups`);
    const other = str(c, 1, 3), alt = mk(`^(?:${src}|${toRegExpSource(other)})$`);
    c.ok(alt.test(s) && alt.test(other), 'either', () => `${JSON.stringify([s, other])} alternatives`);
    const set = c.arr(1, 6, () => c.pick([...META, ...META, 'a', 'z', 'b', '中', ' ', '0', '9'])), many = mk(`^[${toRegExpSource(set.join(''))}]$`), z = c.pick([...META, 'a', 'b', 'c', 'm', 'z', '中', ' ', '0', '5', ',', '<', ':', '_']); c.ok(many.test(z) === set.includes(z), 'class', () => `class of ${JSON.stringify(set.join(''))} against ${z}`);
    const ch = c.pick([...META, 'a', '中', ' ']), cls = mk(`^[${toRegExpSource(ch)}]$`), x = c.pick([...META, 'a', '中', ' ']); c.ok(cls.test(x) === (x === ch), 'class', () => `class of ${ch} against ${x}`);
  });
  await ctx.section('invalid', ctx.n(400), async c => { let f = ''; for (let n = c.int(1, 7); n > 0; n--) f += c.pick(['g', 'i', 'm', 'u', 'y', 's', 'd', 'v', 'x', 'G', ' ']); c.ev(f); const bad = /[^gimuy]/.test(f) || new Set(f).size !== f.length; if (bad) c.throws(() => toRegExp('a', f), 'invalid-flags', f); else c.eq(toRegExp('a', f).test('a'), true, 'valid-flags'); ctx.stat(bad ? 'rejected' : 'accepted'); });
}
