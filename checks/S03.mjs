import { load } from '../lib/bundle.mjs';
export const rule = 'every character of the BMP alone, every entity of the HTML 4 table by name and number, and random strings of entity characters, entity-looking text and fragments; non-trivial: distinct string';
export const assumptions = ['an entity is one of the named entities the module lists; the meaning of its number is the Unicode code point'];
export default async function (ctx) {
  const { decodeEntity, decodeEntityByName, decodeEntityByPoint, encodeEntityToName, encodeEntityToPoint } = load('string');
  const NAMES = {}, BYCH = {};
  const q = s => JSON.stringify(s).replace(/[^ -~]/g, x => '\\u' + x.charCodeAt(0).toString(16).padStart(4, '0'));
  // learn the table by encoding each character, then hold it to the Unicode numbers
  await ctx.section('table', 1, async c => {
    for (let x = 0; x < 0x10000; x++) {
      const s = String.fromCharCode(x), p = encodeEntityToPoint(s), n = encodeEntityToName(s);
      const mp = /^&#(\d+);$/.exec(p), mn = /^&([A-Za-z][A-Za-z0-9]*);$/.exec(n);
      c.ok(!!mp === !!mn, 'both-forms', () => `${q(s)}: name form ${q(n)}, number form ${q(p)}`);
      if (mp) { c.ok(Number(mp[1]) === x, 'number', () => `${q(s)} is encoded as ${p}`); c.ok(!NAMES[mn?.[1]], 'duplicate-name', () => `${n} encodes ${q(s)} and ${q(NAMES[mn[1]])}`); NAMES[mn[1]] = s; BYCH[s] = [mn[1], x]; ctx.stat('entities'); } else c.ok(p === s && n === s, 'plain', () => `${q(s)} is encoded as ${q(p)} / ${q(n)}`);
    }
    const STD = { quot: 34, amp: 38, apos: 39, lt: 60, gt: 62, nbsp: 160, copy: 169, reg: 174, euro: 8364, hellip: 8230, mdash: 8212, ensp: 8194, emsp: 8195, thinsp: 8201, zwj: 8205, alpha: 945, Omega: 937, rarr: 8594, hearts: 9829, yuml: 255, Yuml: 376, fnof: 402, lang: 9001, rang: 9002 };
    for (const n in STD) c.ok(NAMES[n] === String.fromCharCode(STD[n]), 'standard', () => `&${n}; does not stand for U+${STD[n].toString(16)}`);
    c.ev(Object.keys(NAMES).length);
  });
  const names = Object.keys(NAMES);
  const enc = (s, f) => [...s].map(x => BYCH[x] ? f(BYCH[x]) : x).join('');
  const byName = s => s.replace(/&([A-Za-z0-9]+);/g, (m, n) => Object.hasOwn(NAMES, n) ? NAMES[n] : m);
  const byPoint = s => s.replace(/&#([0-9]+);/g, (m, n) => !/^0/.test(n) && BYCH[String.fromCodePoint(Math.min(n, 0x10ffff))] ? String.fromCodePoint(n) : m);
  const both = s => s.replace(/&(?:#([0-9]+)|([A-Za-z0-9]+));/g, m => m[1] === '#' ? byPoint(m) : byName(m));
  const frag = c => c.pick([() => c.pick(names.map(n => NAMES[n])), () => c.pick(['&', '"', '<', '>', "'", '\u00a0']), () => `&${c.pick(names)};`, () => `&#${BYCH[NAMES[c.pick(names)]][1]};`, () => c.pick(['amp;', 'lt;', '#38;', '#60;', '&#', '&#38', '&amp', '&AMP;', '&#0;', '&#065;', '&#65;', '&#x26;', '&constructor;', '&toString;', '&__proto__;', '$&', '$1', ' ', ';', '#', '&;']), () => c.pick(['a', '中', '😀', '\n', '\uD800', '\u2004']), () => c.pick(names), () => '&#' + c.int(0, 10000) + ';'])();
  await ctx.section('strings', ctx.n(15000), async c => {
    let s = ''; for (let n = c.int(0, c.pick([1, 3, 8, 20])); n > 0; n--) s += frag(c);
    c.ev(s); const n = encodeEntityToName(s), p = encodeEntityToPoint(s);
    c.ok(n === enc(s, ([a]) => `&${a};`), 'encode-name', () => `encodeEntityToName(${q(s)}) is ${q(n)}`);
    c.ok(p === enc(s, ([, a]) => `&#${a};`), 'encode-number', () => `encodeEntityToPoint(${q(s)}) is ${q(p)}`);
    const rt = (f, x, k) => { const got = f(x); c.ok(got === s, k, () => `${k}: ${q(x)} decodes to ${q(got)}, original ${q(s)}`); };
    rt(decodeEntityByName, n, 'round-name'); rt(decodeEntityByPoint, p, 'round-number'); rt(decodeEntity, n, 'round-both-name'); rt(decodeEntity, p, 'round-both-number');
    // encoding twice needs decoding twice
    const nn = encodeEntityToName(n); rt(x => decodeEntity(decodeEntity(x)), nn, 'round-twice'); rt(x => decodeEntity(decodeEntity(x)), encodeEntityToPoint(p), 'round-twice');
    for (const [f, w, k] of [[decodeEntityByName, byName(s), 'decode-name'], [decodeEntityByPoint, byPoint(s), 'decode-number'], [decodeEntity, both(s), 'decode-both']]) { const got = f(s); c.ok(got === w, k, () => `${k}(${q(s)}) is ${q(got)}, expected ${q(w)}`); if (w !== s) ctx.stat('decoded'); }
  });
}
