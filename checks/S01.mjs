import { load } from '../lib/bundle.mjs';
export const rule = 'every code point and surrogate alone, and random strings over all UTF-8 lengths and lone surrogates with every kind of limit; non-trivial: distinct string/limit pair';
export const assumptions = ['Buffer and String.prototype.codePointAt of Node are the reference for UTF-8'];
export default async function (ctx) {
  const { bytesArray, bytesLength, splitByBytes, formatBytes, codePointAt, chars, fromChars } = load('string');
  const hex = s => [...s].map(x => x.codePointAt(0).toString(16)).join(' ');
  const utf8 = s => [...Buffer.from(s, 'utf8')];
  function bytes(c, s) {
    const want = utf8(s);
    c.eq(bytesArray(s), want, 'bytesArray', hex(s)); c.eq(bytesLength(s), want.length, 'bytesLength', hex(s));
  }
  const LIM = ctx.tier === 'thorough' ? 0x110000 : 0x30000, STEP = 512;
  await ctx.section('code-points', LIM / STEP, async (c, i) => {
    for (let x = i * STEP; x < (i + 1) * STEP; x++) { const s = String.fromCodePoint(x); bytes(c, s); if (codePointAt(s, 0) !== x) c.fail('codePointAt', `codePointAt of U+${x.toString(16)} is ${codePointAt(s, 0)}`); ctx.stat('code_points'); }
    c.ev(i);
  });
  const CP = c => c.bool(0.3) ? c.int(0, 0x7f) : c.bool(0.3) ? c.pick([0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x1f600]) : c.bool(0.3) ? c.int(0xd800, 0xdfff) : c.bool() ? c.int(0x80, 0x2fff) : c.int(0x10000, 0x10ffff);
  const str = c => { let s = ''; for (let n = c.int(0, c.pick([1, 3, 12, 60])); n > 0; n--) s += String.fromCodePoint(CP(c)); return s; };
  await ctx.section('strings', ctx.n(6000), async c => {
    const s = str(c); c.ev(s); bytes(c, s);
    for (let i = 0; i <= s.length + 1; i++) c.eq(codePointAt(s, i), s.codePointAt(i) ?? null, 'codePointAt', [hex(s), i]);
    c.eq(codePointAt(s, c.pick([-1, 1.5, NaN, Infinity, -Infinity])), null, 'codePointAt-invalid');
    if (s) c.eq(codePointAt(s), s.codePointAt(0), 'codePointAt-default');
    const ch = chars(s); c.eq(ch, [...s], 'chars', hex(s)); c.eq(fromChars(ch), s, 'fromChars', hex(s));
    c.eq(fromChars(Array.from(s)), s, 'fromChars2', hex(s));
  });
  const ref = (s, lim) => { const out = []; let cur = '', n = 0; for (const ch of s) { const b = Buffer.byteLength(ch); if (n && n + b > lim) { out.push(cur); cur = ''; n = 0; } cur += ch; n += b; } if (cur) out.push(cur); return out; };
  await ctx.section('split', ctx.n(6000), async c => {
    const s = str(c), lim = c.pick([1, 2, 3, 4, 5, 7, 8, 16, 64, c.int(1, 100), 4096]);
    c.ev([s, lim]); const got = splitByBytes(s, lim);
    c.ok(got.join('') === s, 'split-join', () => `splitByBytes(${hex(s)}, ${lim}) does not join to the input`);
    for (let i = 0; i < got.length; i++) c.ok(got[i] && (Buffer.byteLength(got[i]) <= lim || [...got[i]].length === 1), 'split-limit', () => `splitByBytes(${hex(s)}, ${lim}): piece ${i} too long or empty`);
    c.eq(got, ref(s, lim), 'split-greedy', [hex(s), lim]);
    c.throws(() => splitByBytes(s, c.pick([0, -1, 1.5, NaN, Infinity])), 'split-invalid');
    ctx.stat('pieces', got.length);
  });
  await ctx.section('split-default', ctx.n(30, 4), async c => {
    let s = ''; for (const n = c.int(3000, 9000); s.length < n;) s += String.fromCodePoint(CP(c)).repeat(c.int(1, 400));
    c.ev(s.length); const got = splitByBytes(s); c.eq(got, ref(s, 4096), 'split-default');
  });
  // long texts: every helper on tens of thousands of characters, with large pieces and with very many pieces
  await ctx.section('long', ctx.n(24, 4), async c => {
    const n = c.pick([1023, 4095, 4097, 8191, 16385, 20000]), al = c.pick([['a'], ['é', 'a'], ['中', 'a', 'é'], ['😀', 'a'], ['😀', '中', 'é', 'a', '\ud800', '\udc00']]); let s = ''; while (s.length < n) s += c.pick(al).repeat(c.int(1, 9)); const lim = c.pick([1, 3, 7, 10, 61, 4095, 4096, 4097, 8192, 10000, 16384, 30000, 100000]); c.ev({ n, al, lim }, c.label);
    bytes(c, s); const got = splitByBytes(s, lim), w = ref(s, lim); c.ok(got.length === w.length && got.every((x, i) => x === w[i]), 'split-greedy', () => `splitByBytes of ${s.length} characters with limit ${lim}: piece ${w.findIndex((x, i) => x !== got[i])} differs`); ctx.statMax('most_pieces', got.length); ctx.statMax('longest_piece', Math.max(...w.map(x => x.length)));
    c.ok(fromChars(chars(s)) === s, 'fromChars', 'long text'); const big = s.repeat(c.pick([1, 4, 5])); for (let k = 0; k < 60; k++) { const i = c.bool(0.3) ? c.pick([big.length - 1, big.length - 2, 65534, 65535, 65536, 32767, 4095, 4096]) : c.int(0, big.length); c.eq(codePointAt(big, i), big.codePointAt(i) ?? null, 'codePointAt', [i, big.length]); } c.eq(bytesLength(big), Buffer.byteLength(big), 'bytesLength');
  });
  const SI = ['B', 'KB', 'MB', 'GB', 'TB', 'PB', 'EB', 'ZB', 'YB'], BIN = ['B', 'KiB', 'MiB', 'GiB', 'TiB', 'PiB', 'EiB', 'ZiB', 'YiB'];
  await ctx.section('format', ctx.n(8000), async c => {
    const si = c.bool(), dp = c.int(0, 6), t = si ? 1000 : 1024;
    let v = c.bool(0.3) ? c.int(0, 1100) : c.bool() ? t ** c.int(0, 9) * (c.bool() ? 1 : c.int(1, 1200) / c.pick([1, 10, 100])) : Math.round(Math.exp(c.int(0, 60000) / 1000));
    if (c.bool(0.3)) v = Math.max(0, v - c.pick([1, 0.5, 0.04, v * 1e-6, v * 1e-4])); if (c.bool(0.2)) v = -v;
    c.ev([v, si, dp]);
    const s = formatBytes(v, si, dp), U = si ? SI : BIN, m = /^(-?[\d.e+]+) (\w+)$/.exec(s), k = m ? U.indexOf(m[2]) : -1;
    c.ok(k >= 0, 'format-shape', () => `formatBytes(${v}, ${si}, ${dp}) is ${s}`); if (k < 0) return;
    const x = Number(m[1]), q = v / t ** k, lim = Math.abs(x) >= t && k < 8;
    c.ok(!lim, 'format-unit', () => `formatBytes(${v}, ${si}, ${dp}) is ${s}: a larger unit exists`);
    if (k === 0) c.ok(x === v, 'format-bytes', () => `formatBytes(${v}, ${si}, ${dp}) is ${s}`);
    else {
      c.ok(Math.abs(x - q) <= 0.5 * 10 ** -dp + Math.abs(q) * 1e-9, 'format-value', () => `formatBytes(${v}, ${si}, ${dp}) is ${s}, value is ${q}`);
      c.ok(Math.abs(x) >= 1, 'format-small', () => `formatBytes(${v}, ${si}, ${dp}) is ${s}: a smaller unit fits`);
      if (Math.abs(x) < 1e21) c.ok((m[1].split('.')[1] ?? '').length === dp, 'format-digits', () => `formatBytes(${v}, ${si}, ${dp}) is ${s}`);
    }
  });
}
