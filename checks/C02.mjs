import { load } from '../lib/bundle.mjs';
export const rule = 'lists of 1 to 8 Set-Cookie lines with any attribute order, four date formats, repeated names, commas inside paths and values, joined with a comma and any white space; non-trivial: distinct list and separators';
export const assumptions = ['in a line, no comma is followed by text up to an equals sign without a comma or semicolon between (that would be a new cookie)'];
export default async function (ctx) {
  const { splitSetCookie, joinSetCookie, parseSetCookie } = load('cookie');
  const AL = 'abzAZ019!#$%&*+-.^_~/:@', str = (c, a, b) => { let s = ''; for (let n = c.int(a, b); n > 0; n--) s += c.pick([...AL]); return s; };
  const D = ['Mon', 'Wednesday', 'Sun'], M = ['Jan', 'Feb', 'Jun', 'Dec'];
  const date = c => { const d = String(c.int(1, 28)).padStart(2, '0'), m = c.pick(M), y = c.int(1970, 2099), t = `${String(c.int(0, 23)).padStart(2, '0')}:0${c.int(0, 9)}:5${c.int(0, 9)} GMT`; return c.pick([`${c.pick(D)}, ${d} ${m} ${y} ${t}`, `${c.pick(D)}, ${d}-${m}-${y % 100} ${t}`, `${c.pick(D)},${d} ${m} ${y} ${t}`, `${d} ${m} ${y} ${t}`]); };
  function line(c) {
    const name = c.pick([str(c, 1, 6), 'a', 'b', 'Expires', 'path', 'constructor']).replace(/^__proto__$/, 'p'); let value = str(c, 0, 10); if (c.bool(0.15)) value += c.pick(['=', '==', '=x']); else if (c.bool(0.15)) value += c.pick([',', ',x', ', x y', ',,', ',1,2']);
    const at = []; const put = (p, f) => { if (c.bool(p)) at.push(f()); };
    put(0.5, () => c.pick(['Expires=', 'expires=', 'EXPIRES =']) + date(c)); put(0.4, () => 'Path=/' + str(c, 0, 5) + c.pick(['', '', ',z', ', z'])); put(0.3, () => 'Domain=.a.com'); put(0.3, () => 'Max-Age=' + c.int(0, 99)); put(0.3, () => 'Secure'); put(0.3, () => 'HttpOnly'); put(0.3, () => 'SameSite=Lax');
    const text = [`${name}=${value}`, ...c.shuffle(at)].join(c.pick(['; ', '; ', ';', ' ; '])); return { name, value, text: c.bool(0.05) && /;|^[^,]*$/.test(text) ? text + ';' : text };
  }
  await ctx.section('split', ctx.n(8000), async c => {
    const ls = Array.from({ length: c.int(1, c.pick([2, 4, 8])) }, () => line(c)); const seps = ls.slice(1).map(() => ',' + c.pick(['', '', ' ', '  ', '\t', '\n', ' \r\n ']));
    const text = ls.map((l, i) => (i ? seps[i - 1] : '') + l.text).join(''); c.ev(text); if (ls.length > 2) ctx.stat('three_or_more');
    const got = splitSetCookie(text); c.eq(got, ls.map(l => l.text), 'split', { text, got });
    const parsed = parseSetCookie(got, { decode: false }); c.eq(joinSetCookie(parsed), ls.map(l => `${l.name}=${l.value}`).join('; '), 'join');
    const one = new Map(); for (const l of ls) one.set(l.name, l.value);
    const map = parseSetCookie(got, { decode: false, map: true }), j = joinSetCookie(map); c.eq(j.split('; ').sort(), [...one].map(([k, v]) => `${k}=${v}`).join('; ').split('; ').sort(), 'join-map');
  });
  await ctx.section('sizes', ctx.n(40), async (c, i) => {
    const n = [100, 127, 128, 129, 255, 256, 1000, 5000][i % 8], name = 'n'.repeat(n), ls = [`a=1; Path=/${'p'.repeat(n)}`, `${name}=${'v'.repeat(n)}, x; Expires=Wed, 21 Oct 2015 07:28:00 GMT`, 'b=; Secure', `a=${i % 2 ? '' : 'z'}`, ...Array.from({ length: [0, 50, 300][i % 3] }, (_, k) => `m${k}=${k}; Expires=Thu, 01 Jan 1970 00:00:00 GMT`)]; c.ev([n, ls.length]); ctx.stat('long', n);
    const got = splitSetCookie(ls.join(c.pick([',', ', ', ',' + ' '.repeat(n)]))); c.eq(got, ls, 'split-long');
    // the last pair of a repeated name is kept, an empty one too
    const map = parseSetCookie(got, { decode: false, map: true }); c.eq([map.a.value, map.b.value, map[name].value], [i % 2 ? '' : 'z', '', 'v'.repeat(n) + ', x'], 'map-last');
    c.eq(joinSetCookie(map).split('; ')[0], i % 2 ? 'a=' : 'a=z', 'join-map-last'); c.eq(joinSetCookie(parseSetCookie(got, { decode: false })).split('; ').length, ls.length, 'join-long');
  });
  await ctx.section('empty', ctx.n(50), async c => { const v = c.pick(['', undefined, null, 5]); c.ev(v, c.label); c.eq(splitSetCookie(v), [], 'empty'); const list = c.arr(1, 4, i => ({ name: 'abcd'[i], value: c.pick(['', '', '0', 'x=y']) })); c.eq(joinSetCookie(list), list.map(l => `${l.name}=${l.value}`).join('; '), 'join-empty-values'); c.eq(joinSetCookie(Object.fromEntries(list.map(l => [l.name, l]))), list.map(l => `${l.name}=${l.value}`).join('; '), 'join-empty-values-map'); await c.throws(() => joinSetCookie(c.pick([[], undefined, 'x'])), 'join-nothing'); });
}
