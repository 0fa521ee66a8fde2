import { load } from '../lib/bundle.mjs';
import { LATER } from '../lib/later.mjs';
export const rule = 'every code point alone against each exported class (as a pattern of its own and repeated), and random texts scanned for it; non-trivial: distinct code point sampled or text';
export const assumptions = ['the reference is the Unicode property of the running Node, with the code points assigned after Unicode 12 left open (lib/later.mjs), and the documented extras of each class', 'lone surrogates are judged alone, not inside texts'];
export default async function (ctx) {
  const { source } = load('regexp'); const inR = t => x => t.some(([a, b = a]) => x >= a && x <= b);
  const later = new Uint8Array(0x110000); for (const [a, b = a] of LATER) later.fill(1, a, b + 1);
  const KANA = [[0x30A0, 0x30FF], [0x31F0, 0x31FF], [0x32D0, 0x32FE], [0x3300, 0x3357], [0xFF66, 0xFF6F], [0xFF71, 0xFF9D]];
  const prop = (re, more = '') => x => { const s = String.fromCodePoint(x); return re.test(s) || more.includes(s); };
  const bmp = f => x => x < 0x10000 && f(x);
  const REF = {
    ascii: x => x < 128, blank: prop(/\p{Z}/u), control: prop(/\p{C}/u), punctuation: prop(/\p{P}/u, '$<>^`~\uFF5E'), korean: bmp(prop(/\p{Script=Hangul}/u)),
    hiragana: bmp(x => inR([[0x3099, 0x309C]])(x) || prop(/\p{Script=Hiragana}/u)(x)), katakana: bmp(inR(KANA)),
    han: bmp(x => inR([[0x2E9A], [0x3200, 0x33FF]])(x) || prop(/\p{Script=Han}/u)(x)), unifiedIdeograph: prop(/\p{Unified_Ideograph}/u),
    chkPunctuation: inR([[0x2000, 0x206F], [0x2E00, 0x2E7F], [0x3000, 0x303F], [0xFE10, 0xFE1F], [0xFE30, 0xFE4F], [0xFF00, 0xFFEF]]),
    japanese: bmp(x => x !== 0x30FB && prop(/[\p{Script=Han}\p{Script=Hiragana}\p{Script=Katakana}]/u)(x)),
  };
  const names = Object.keys(REF), alone = {}, scan = {}; for (const n of names) { alone[n] = new RegExp(`^(?:${source[n]})$`); scan[n] = new RegExp(source[n], 'g'); }
  // the ideograph class ends before those added to older blocks later on
  const open = (n, x) => later[x] || n === 'unifiedIdeograph' && inR([[0x2A6D7, 0x2A6DF], [0x2B735, 0x2B73F], [0x2CEA2, 0x2CEAF], [0x2EBE1, 0x2EE5D], [0x30000, 0x3FFFF]])(x);
  const LIM = ctx.tier === 'thorough' ? 0x110000 : 0x33000, STEP = 512;
  await ctx.section('code-points', LIM / STEP, async (c, i) => {
    for (let x = i * STEP; x < (i + 1) * STEP; x++) {
      const s = String.fromCodePoint(x); if (x % 61 === 0) c.ev(x); ctx.stat('code_points');
      for (const n of names) if (!open(n, x)) { const w = REF[n](x); c.ok(alone[n].test(s) === w, n, () => `source.${n} ${w ? 'does not match' : 'matches'} U+${x.toString(16)}`); }
    }
  });
  const EDGE = [0x20, 0x7F, 0x80, 0xA0, 0xAD, 0x1680, 0x180E, 0x2000, 0x200B, 0x2028, 0x202F, 0x205F, 0x3000, 0xFEFF, 0x30FB, 0x30FC, 0x3099, 0x309D, 0x4E00, 0x9FEF, 0xFA0E, 0xFA11, 0x20000, 0x2A6D6, 0x2CEB0, 0x10100, 0x1F600, 0xE0001, 0xE0100, 0xAC00, 0xD7A3, 0x1100, 0xFF66, 0xFF70, 0xFF5E, 0x2018, 0x1039F, 0x3200, 0x33FF, 0x2E99, 0x2E9A, 0x9, 0xA, 0xFFFF];
  await ctx.section('texts', ctx.n(4000), async c => {
    let s = ''; for (let k = c.int(1, 12); k--;) { const x = c.weighted([[3, () => c.pick(EDGE)], [2, () => c.int(0, 127)], [2, () => c.int(0, 0xD7FF)], [1, () => c.int(0xE000, 0x2FFFF)]])(); s += String.fromCodePoint(x); }
    c.ev(s);
    for (const n of names) { const p = [...s].filter(ch => !open(n, ch.codePointAt(0))); const t = p.join(''), want = p.filter(ch => REF[n](ch.codePointAt(0))); c.eq(t.match(scan[n]) ?? [], want, `${n}-in-text`); c.eq(new RegExp(`^(?:${source[n]})*$`).test(t), want.length === p.length, `${n}-all`); }
  });
  // the same text again: the exported values are plain strings
  await ctx.section('kinds', 1, async c => { for (const n of [...names, 'email', 'uri']) { c.ev(n); c.ok(typeof source[n] === 'string', n, 'not a string'); new RegExp(source[n]); } });
}
