import { load } from '../lib/bundle.mjs';
export const rule = 'every code point of the Basic and supplementary planes alone (thorough: all; quick: all of the BMP and boundaries), embedded between arbitrary neighbours, and random strings, each asked twice; non-trivial: distinct code point or string';
export const assumptions = ['the sets are those of the documented patterns: Unified_Ideograph, Han, Hiragana and Katakana of Unicode 11, and six punctuation blocks'];
export default async function (ctx) {
  const { inChinese, inJapanese, inChkPunctuation } = load('regexp');
  const inR = t => x => t.some(([a, b = a]) => x >= a && x <= b);
  const UNI = inR([[0x3400, 0x4DB5], [0x4E00, 0x9FEF], [0xFA0E, 0xFA0F], [0xFA11], [0xFA13, 0xFA14], [0xFA1F], [0xFA21], [0xFA23, 0xFA24], [0xFA27, 0xFA29], [0x20000, 0x2A6D6], [0x2A700, 0x2B734], [0x2B740, 0x2B81D], [0x2B820, 0x2CEA1], [0x2CEB0, 0x2EBE0]]);
  const HAN = inR([[0x2E80, 0x2E99], [0x2E9B, 0x2EF3], [0x2F00, 0x2FD5], [0x3005], [0x3007], [0x3021, 0x3029], [0x3038, 0x303B], [0x3400, 0x4DB5], [0x4E00, 0x9FEF], [0xF900, 0xFA6D], [0xFA70, 0xFAD9]]);
  const HIRA = inR([[0x3041, 0x3096], [0x309D, 0x309F]]), KATA = inR([[0x30A1, 0x30FA], [0x30FD, 0x30FF], [0x31F0, 0x31FF], [0x32D0, 0x32FE], [0x3300, 0x3357], [0xFF66, 0xFF6F], [0xFF71, 0xFF9D]]);
  const KANA = x => HIRA(x) || KATA(x), KANAMAYBE = inR([[0x3099, 0x309C], [0x30A0], [0x30FB, 0x30FC]]);
  const JP = x => HAN(x) || KANA(x), PUNCT = inR([[0x2000, 0x206F], [0x2E00, 0x2E7F], [0x3000, 0x303F], [0xFE10, 0xFE1F], [0xFE30, 0xFE4F], [0xFF00, 0xFFEF]]);
  const cps = s => [...s].map(x => x.codePointAt(0));
  function check(c, s) {
    const p = cps(s), uni = p.some(UNI), kana = p.some(KANA), show = () => p.map(x => x.toString(16)).join(' ');
    for (let k = 0; k < 2; k++) {
      c.ok(inChinese(s) === uni, 'inChinese', () => `inChinese(${show()}) is ${!uni}`);
      if (!p.some(KANAMAYBE) || kana) c.ok(inChinese(s, true) === (uni && !kana), 'inChinese-strict', () => `inChinese(${show()}, true) is ${!(uni && !kana)}`);
      c.ok(inJapanese(s) === p.some(JP), 'inJapanese', () => `inJapanese(${show()})`); c.ok(inChkPunctuation(s) === p.some(PUNCT), 'inChkPunctuation', () => `inChkPunctuation(${show()})`);
    }
  }
  const LIM = ctx.tier === 'thorough' ? 0x110000 : 0x31000, STEP = 512;
  await ctx.section('code-points', LIM / STEP, async (c, i) => { for (let x = i * STEP; x < (i + 1) * STEP; x++) { const s = String.fromCodePoint(x); if (x % 97 === 0) c.ev(x); check(c, s); ctx.stat('code_points'); } });
  const EDGE = [0x33FF, 0x3400, 0x4DB5, 0x4DB6, 0x4E00, 0x9FEF, 0x9FFF, 0xFA0D, 0xFA0E, 0xFA29, 0xFA2A, 0x20000, 0x2A6D6, 0x2A700, 0x2EBE0, 0x2F800, 0x1F600, 0xD840, 0xDC00, 0xD869, 0xDED6, 0xD83D, 0x3041, 0x3096, 0x30A1, 0x30FF, 0xFF66, 0xFF70, 0x3000, 0x303F, 0x2E7F, 0x61, 0x20, 0xA, 0x2018, 0xFF0C, 0x3002, 0xAC00, 0x7A, 0x2E80];
  // one telling character far into, or around, a long text
  await ctx.section('long-texts', ctx.n(120), async (c, i) => { const n = [120, 999, 1000, 1023, 1024, 4097, 10000, 20000, 65535, 66000][i % 10], fill = c.pick(['a', ' ', '한', '😀', 'é\n']), x = String.fromCodePoint(EDGE[(i * 7) % EDGE.length]), y = String.fromCodePoint(c.pick(EDGE)); const f = fill.repeat(Math.ceil(n / fill.length)); c.ev([n, x, y]); for (const s of [f + x, x + f, f + x + f + y, x + f + y]) check(c, s); });
  await ctx.section('strings', ctx.n(15000), async c => { let s = ''; for (let n = c.int(0, c.pick([2, 5, 20])); n > 0; n--) s += c.bool(0.5) ? c.pick(['a', 'b', ' ', '\n', '1', '.', 'é', '한', '😀', '\uD840', '\uDC00']) : c.bool(0.6) ? String.fromCodePoint(c.pick(EDGE)) : String.fromCodePoint(c.int(0, 0x2FFFF)); c.ev(s); check(c, s); });
}
