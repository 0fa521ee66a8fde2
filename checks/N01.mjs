import { load } from '../lib/bundle.mjs';
export const rule = 'amounts of 0..14 integer and 0..4 decimal digits with zero-biased digit patterns, as string or number, with sign and prefix options; non-trivial: distinct amount';
export const assumptions = ['numeric strings have no superfluous leading zeros'];
const D = '零壹贰叁肆伍陆柒捌玖';
/** independent reader: text -> {int, dec} digit strings, or an explanation */
export function read(t) {
  const m = /^([^元角分厘毫整]*元)?((?:[零壹贰叁肆伍陆柒捌玖]角)?(?:零?[零壹贰叁肆伍陆柒捌玖]分)?(?:[零壹贰叁肆伍陆柒捌玖]厘)?(?:[零壹贰叁肆伍陆柒捌玖]毫)?)(整)?$/.exec(t);
  if (!m) return 'not a numeral';
  let total = 0n, section = 0n, cur = null, lastSmall = 1e9, lastPlace = 1e9;
  const it = m[1] ? m[1].slice(0, -1) : '';
  if (m[1] && it !== '零') {
    if (!it || it.endsWith('零') || it.startsWith('零') || it.includes('零零')) return 'stray 零 in the integer part';
    for (const ch of it) {
      const d = D.indexOf(ch), u = '拾佰仟'.indexOf(ch), p = '万亿兆'.indexOf(ch);
      if (d >= 0) { if (cur !== null && cur !== 0) return 'digit after digit'; cur = d; }
      else if (u >= 0) { if (!cur) return 'unit without digit'; if (u >= lastSmall) return 'units not descending'; section += BigInt(cur) * 10n ** BigInt(u + 1); lastSmall = u; cur = null; }
      else if (p >= 0) { if (cur) section += BigInt(cur); if (!section) return 'place unit without section'; if (p >= lastPlace) return 'place units not descending'; total += section * 10000n ** BigInt(p + 1); section = 0n; lastPlace = p; lastSmall = 1e9; cur = null; }
      else return 'unknown character ' + ch;
    }
    if (cur) section += BigInt(cur);
    total += section;
  }
  const dec = ['角', '分', '厘', '毫'].map(u => { const i = m[2].indexOf(u); return i < 0 ? '0' : String(D.indexOf(m[2][i - 1])); }).join('');
  if (!m[1] && !m[2]) return 'empty';
  return { int: String(total), dec, text: it, zheng: !!m[3], fine: /[分厘毫]/.test(m[2]) };
}
export default async function (ctx) {
  const { amountInWords } = load('number');
  const digits = c => { const n = c.int(1, 14), pz = c.pick([0.1, 0.4, 0.7, 0.9]); let s = ''; for (let i = 0; i < n; i++) s += c.bool(pz) ? '0' : String(c.int(0, 9)); return s.replace(/^0+(?=\d)/, ''); };
  const check = (c, text, neg, int, dec) => {
    const r = read(text); c.ok(typeof r === 'object', 'unreadable', () => `${neg}${int}.${dec} -> ${text}: ${r}`);
    c.ok(r.int === int && r.dec === dec.padEnd(4, '0'), 'amount', () => `${int}.${dec} -> ${text} reads as ${r.int}.${r.dec}`);
    c.ok(r.zheng === !r.fine, 'zheng', () => `${int}.${dec} -> ${text}: 整 misplaced`);
    // a gap between the yuan and the first decimal digit that is written is marked with 零, and only then
    const after = text.slice(text.indexOf('元') + 1), d4 = dec.padEnd(4, '0'); if (int !== '0' && text.includes('元') && /[1-9]/.test(dec)) c.ok(after.startsWith('零') === (d4[0] === '0'), 'gap', () => `${int}.${dec} -> ${text}: 零 after 元`);
    if (!text.includes('元') && /[1-9]/.test(dec) && d4[1] !== '0') c.ok(!text.startsWith('零'), 'gap', () => `${int}.${dec} -> ${text}: 零 in front of the first digit`);
    // one 零 per run of zeros in front of a non-zero digit of its four-digit group (leading positions count when a higher group exists)
    let zeros = 0; for (let e = int.length, first = true; e > 0; e -= 4) { const top = e <= 4, g = int.slice(Math.max(0, e - 4), e); if (/[1-9]/.test(g)) { const b = top ? g.replace(/^0+/, '') : g; zeros += (b.match(/0+(?=[1-9])/g) || []).length; } }
    c.ok(int === '0' || [...r.text].filter(x => x === '零').length === zeros, 'zero-rule', () => `${int} -> ${text}: expected ${zeros} 零`);
  };
  await ctx.section('string', ctx.n(12000, 30), async c => {
    const int = digits(c), dec = c.bool(0.4) ? '' : c.str(1, 4, c.pick(['0123456789', '05', '0001'])), neg = c.bool(0.15) && (/[1-9]/.test(int + dec)) ? '-' : '', v = neg + int + (dec ? '.' + dec : c.bool(0.05) ? '.' : ''); c.ev(v, v);
    const opts = {}; if (c.bool(0.2)) opts.prefix = c.pick(['人民币', '', 'RMB ']); if (c.bool(0.2)) opts.negative = c.pick(['负', '欠', '']);
    let t = Object.keys(opts).length || c.bool() ? amountInWords(c.bool(0.1) ? ` ${v} ` : v, opts) : amountInWords(v);
    const head = (opts.prefix ?? '') + (neg ? opts.negative ?? '负' : ''); c.ok(t.startsWith(head), 'head', () => `${t} does not start with ${head}`); check(c, t.slice(head.length), neg, int, dec);
  });
  await ctx.section('number', ctx.n(6000), async c => {
    const int = c.bool() ? digits(c) : String(c.int(0, 20)), dec = c.bool() ? '' : c.str(1, Math.min(4, Math.max(1, 15 - int.length)), '0123456789'), v = Number(int + (dec ? '.' + dec : '')); c.ev(v, String(v));
    const [a, b = ''] = String(v).split('.'); if (a.includes('e') || b.includes('e') || b.length > 4 || a.length > 14) { c.throws(() => amountInWords(v), 'out-of-domain', e => e instanceof TypeError); return; }
    check(c, amountInWords(v), '', a, b);
  });
  // every amount with few significant positions, exhaustively sliced
  await ctx.section('patterns', 128, async (c, i) => { for (let m = i * 128; m < i * 128 + 128; m++) { if (!m) continue; let s = ''; for (let b = 13; b >= 0; b--) s += m >> b & 1 ? String(1 + (b + i) % 9) : '0'; s = s.replace(/^0+/, ''); c.ev(s, s); check(c, amountInWords(s), '', s, ''); } });
  await ctx.section('reject', ctx.n(600), async c => {
    const v = c.pick([() => NaN, () => Infinity, () => '-Infinity', () => '数字', () => 'abc', () => '1,000', () => undefined, () => ({}), () => String(c.int(1, 9)) + c.str(14, 20, '0123456789'), () => `${c.int(0, 99)}.${c.int(0, 9)}${c.str(3, 6, '0123')}${c.int(1, 9)}`, () => c.pick([1e21, 1.5e300, 1e-7, 2.5e-10, '1e3', '1E3', '0x10', '0b11', '0o17', 1e15, 123456789012345])])(); c.ev(v); c.throws(() => amountInWords(v), 'accepted', e => e instanceof TypeError);
  });
}
