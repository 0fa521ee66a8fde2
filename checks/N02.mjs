import { load } from '../lib/bundle.mjs';
export const rule = 'bounds and lengths with the entropy source replaced by constant extremes (all zero, all one, 1-2^-53) or seeded draws; non-trivial: distinct function, argument and draw';
export const assumptions = ['both ends of a range are claimed for ranges of at most 2^53 integers (the resolution of a draw)'];
const show1 = v => typeof v === 'object' ? JSON.stringify(v) : String(v);
export default async function (ctx) {
  const N = load('number'), S = load('string'), A = load('array');
  const realR = Math.random, cr = globalThis.crypto, realG = cr.getRandomValues;
  const withDraw = (c, mode, fn) => {
    Math.random = { lo: () => 0, hi: () => 1 - 2 ** -53, mid: () => 0.5, seeded: () => (c.u32() >>> 5) * 2 ** -27 + (c.u32() >>> 6) * 2 ** -53 }[mode];
    cr.getRandomValues = a => { if (a.byteLength > 65536) throw new DOMException('too many bytes', 'QuotaExceededError'); const b = new Uint8Array(a.buffer, a.byteOffset, a.byteLength); for (let i = 0; i < b.length; i++) b[i] = { lo: 0, hi: 255, mid: 128 }[mode] ?? c.int(0, 255); return a; };
    try { return fn(); } finally { Math.random = realR; delete cr.getRandomValues; if (cr.getRandomValues !== realG) cr.getRandomValues = realG; }
  };
  const modes = ['lo', 'hi', 'mid', 'seeded', 'seeded', 'seeded'];
  await ctx.section('float', ctx.n(2000), async c => { const m = c.pick(modes); for (const f of ['random', 'randomSafe']) { const v = withDraw(c, m, () => N[f]()); c.ev({ f, m, v }); c.ok(typeof v === 'number' && v >= 0 && v < 1, 'unit-interval', () => `${f} gave ${v}`); if (m === 'lo') c.eq(v, 0, 'low-end'); if (m === 'hi') c.ok(v > 1 - 2 ** -30, 'high-end', () => `${f} cannot come close to 1: ${v}`); } });
  await ctx.section('range', ctx.n(6000), async c => {
    const f = c.pick(['range', 'rangeSafe']), m = c.pick(modes), mk = () => c.pick([() => c.int(-20, 20), () => c.int(-1e9, 1e9), () => c.pick([Number.MAX_SAFE_INTEGER, Number.MIN_SAFE_INTEGER, 0, 2 ** 32, 2 ** 31, -(2 ** 32), 2 ** 52, -0])])();
    let a = mk(), b = c.pick([() => mk(), () => a, () => a + 1 > Number.MAX_SAFE_INTEGER ? a : a + 1])(); if (a > b) [a, b] = [b, a]; c.ev({ f, a, b, m }, c.label);
    const v = withDraw(c, m, () => N[f](a, b)); c.ok(Number.isSafeInteger(v) && v >= a && v <= b, 'outside', () => `${f}(${a}, ${b}) gave ${v} with draw ${m}`);
    if (b - a < 2 ** 53) { if (m === 'lo') c.ok(v === a, 'start-unreachable', () => `${f}(${a}, ${b}) gave ${v} at the lowest draw`); if (m === 'hi') c.ok(v === b, 'end-unreachable', () => `${f}(${a}, ${b}) gave ${v} at the highest draw`); }
  });
  await ctx.section('range-invalid', ctx.n(200), async c => { const bad = c.pick([1.5, NaN, Infinity, 2 ** 53, -(2 ** 53), '1', null, undefined, 1n]); c.ev(bad); for (const f of ['range', 'rangeSafe']) { c.throws(() => N[f](bad, 5), 'start', e => e instanceof TypeError); c.throws(() => N[f](0, bad), 'end', e => e instanceof TypeError); } });
  // reachability: over seeded draws every value of a small set shows up
  await ctx.section('reach', ctx.n(40, 10), async c => {
    const L = 'abcdefghijklmnopqrstuvwxyz', a = c.int(-5, 5), n = c.int(1, 8), arr = Array.from({ length: n }, (_, i) => ({ i })), safe = c.bool();
    const cases = { range: [() => N.range(a, a + n - 1), Array.from({ length: n }, (_, i) => a + i)], rangeSafe: [() => N.rangeSafe(a, a + n - 1), Array.from({ length: n }, (_, i) => a + i)], arrayRandom: [() => A.random(arr), arr], bool: [() => S.randomBoolean(safe), [true, false]], lower: [() => S.randomLower(safe), [...L]], upper: [() => S.randomUpper(safe), [...L.toUpperCase()]], hexdigit: [() => S.randomHexColor(safe)[c.int(1, 6)], [...'0123456789ABCDEF']], digit: [() => S.randomNumber(4)[c.int(0, 3)], [...'0123456789']] };
    for (const [k, [f, want]] of Object.entries(cases)) { const seen = new Set(); withDraw(c, 'seeded', () => { for (let i = 0; i < 1200; i++) { const v = f(); c.ok(want.includes(v), 'outside', () => `${k} gave ${String(v)}`); seen.add(v); } }); c.ev({ k, n, safe, seen: seen.size }); c.ok(seen.size === want.length, 'unreachable', () => `${k}: only ${seen.size} of ${want.length} values in 1200 draws`); }
  });
  // draws that are evenly spread give evenly spread values
  await ctx.section('even', ctx.n(22, 4), async (c, i) => {
    const a = c.int(-5, 5), n = c.int(2, 8), arr = Array.from({ length: n }, (_, i) => ({ i })), L = 'abcdefghijklmnopqrstuvwxyz', safe = c.bool(), ints = Array.from({ length: n }, (_, i) => a + i), ks = ['range', 'rangeSafe', 'arrayRandom', 'bool', 'lower', 'upper', 'shuffle', 'hexdigit', 'wide', 'float', 'floatSafe'], k = ks[i % ks.length], oct = v => Math.floor(v * 8), four = [...'abcd'], eight = [0, 1, 2, 3, 4, 5, 6, 7];
    const [f, want] = { range: [() => N.range(a, a + n - 1), ints], rangeSafe: [() => N.rangeSafe(a, a + n - 1), ints], arrayRandom: [() => A.random(arr), arr], bool: [() => S.randomBoolean(safe), [true, false]], lower: [() => S.randomLower(safe), [...L]], upper: [() => S.randomUpper(safe), [...L.toUpperCase()]], hexdigit: [() => S.randomHexColor(safe)[c.int(1, 6)], [...'0123456789ABCDEF']], shuffle: [() => A.shuffle(four).join(''), four.flatMap(w => four.filter(x => x !== w).flatMap(x => four.filter(y => y !== w && y !== x).map(y => w + x + y + four.find(z => z !== w && z !== x && z !== y))))], wide: [() => oct((N[safe ? 'rangeSafe' : 'range'](-1e9, 1e9) + 1e9) / (2e9 + 1)), eight], float: [() => oct(N.random()), eight], floatSafe: [() => oct(N.randomSafe()), eight] }[k];
    const per = 600, cnt = new Map(want.map(x => [x, 0])); c.ev({ k, a, n, safe }, c.label); withDraw(c, 'seeded', () => { for (let i = 0; i < per * want.length; i++) { const v = f(); cnt.set(v, cnt.get(v) + 1); } });
    for (const [v, m] of cnt) c.ok(m > per * 0.72 && m < per * 1.28, 'uneven', () => `${k}: ${show1(v)} came up ${m} times where ${per} are expected`); ctx.stat('even_' + k);
  });
  await ctx.section('extremes', ctx.n(300), async c => {
    const m = c.pick(modes), safe = c.pick([true, false, undefined]); c.ev({ m, safe }, c.label);
    withDraw(c, m, () => {
      c.ok(/^[a-z]$/.test(S.randomLower(safe)), 'lower', 'randomLower'); c.ok(/^[A-Z]$/.test(S.randomUpper(safe)), 'upper', 'randomUpper'); c.ok(typeof S.randomBoolean(safe) === 'boolean', 'bool', 'randomBoolean');
      const h = S.randomHexColor(safe); c.ok(/^#[0-9A-F]{6}$/.test(h), 'hex', () => `randomHexColor gave ${h}`); if (m === 'lo') c.eq(h, '#000000', 'hex-low'); if (m === 'hi') c.eq(h, '#FFFFFF', 'hex-high');
      const n = c.pick([0, 1, 2, 15, 100, 1000, c.int(1, 300)]), s = S.randomNumber(n); c.ok(s.length === n && /^\d*$/.test(s), 'digits', () => `randomNumber(${n}) has ${s.length} characters`); c.eq(S.randomNumber().length, 15, 'digits-default');
      const arr = Array.from({ length: c.bool(0.05) ? c.pick([255, 256, 257, 1001, 65536, 65537, 100000]) : c.int(1, 9) }, (_, i) => ({ i })), v = A.random(arr); c.ok(arr.includes(v), 'array', 'random item'); if (m === 'lo') c.ok(v === arr[0], 'first', 'first item'); if (m === 'hi') c.ok(v === arr[arr.length - 1], 'last', 'last item');
    });
  });
  await ctx.section('digits-long', ctx.n(8, 3), async c => { const n = c.pick([65535, 65536, 65537, 131072, 131073, 200000]), m = c.pick(['lo', 'hi', 'seeded']), s = withDraw(c, m, () => S.randomNumber(n)); c.ev({ n, m }); c.ok(s.length === n && /^\d+$/.test(s), 'digits', () => `randomNumber(${n}) has ${s.length} characters`); });
  // the safe forms depend on the whole draw of the cryptographic generator and on nothing else
  await ctx.section('secure', ctx.n(300), async c => {
    const forms = { randomSafe: () => N.randomSafe(), rangeSafe: () => N.rangeSafe(0, 2 ** 40), lower: () => S.randomLower(true), upper: () => S.randomUpper(true), bool: () => S.randomBoolean(true), hex: () => S.randomHexColor(true), number: () => S.randomNumber(c.int(1, 40)) }, k = c.pick(Object.keys(forms)); c.ev({ k, i: c.u32() });
    let weak = 0, strong = 0; const R = Math.random; Math.random = () => { weak++; return R(); }; cr.getRandomValues = a => { strong++; return realG.call(cr, a); };
    try { forms[k](); } finally { Math.random = R; delete cr.getRandomValues; }
    if (k !== 'number') c.ok(weak === 0, 'weak-source', () => `${k} (safe) draws from Math.random`); c.ok(strong > 0, 'no-source', () => `${k} does not draw from crypto.getRandomValues`);
    const outs = new Set(), pats = [0, 0xff, 0xa5]; for (const x of pats) for (const y of pats) { cr.getRandomValues = a => { const b = new Uint8Array(a.buffer, a.byteOffset, a.byteLength), h = b.length >> 1; b.fill(x, 0, h); b.fill(y, h); return a; }; try { outs.add(N.randomSafe()); } finally { delete cr.getRandomValues; } }
    c.ok(outs.size === 9, 'bits-ignored', () => `randomSafe gives ${outs.size} values for 9 different draws`); ctx.stat('sources_monitored');
  });
  // in a browser the generator is found under whichever vendor name it has
  await ctx.section('browser', 30, async c => {
    const name = c.pick(['crypto', 'webkitCrypto', 'mozCrypto', 'oCrypto', 'msCrypto']), tag = (t, o = {}) => Object.assign(Object.create({ [Symbol.toStringTag]: t }), o); let draws = 0; c.ev({ name, i: c.u32() });
    const own = { getRandomValues: a => { draws++; new Uint8Array(a.buffer).fill(0x55); return a; } }, win = tag('Window', { document: tag('HTMLDocument'), history: tag('History'), navigator: tag('Navigator'), [name]: own }); win.window = win;
    const fake = { window: win, HTMLImageElement: function () { }, HTMLCanvasElement: function () { }, HTMLVideoElement: function () { } }, kept = {}; for (const k of Object.keys(fake)) { kept[k] = Object.getOwnPropertyDescriptor(globalThis, k); Object.defineProperty(globalThis, k, { value: fake[k], configurable: true, writable: true }); }
    const M = (() => { try { const m = load('number'); const T = load('types'); return T.isBrowser() ? [m, m.randomSafe(), m.rangeSafe(5, 9)] : null; } finally { for (const k of Object.keys(fake)) kept[k] ? Object.defineProperty(globalThis, k, kept[k]) : delete globalThis[k]; } })();
    if (!M) { ctx.stat('browser_standin_not_recognised'); return; } c.ok(draws >= 2, 'browser-source', () => `window.${name} is not used`); c.ok(M[1] > 0 && M[1] < 1 && M[2] >= 5 && M[2] <= 9, 'browser-value', () => `gave ${M[1]} and ${M[2]}`); ctx.stat('browser_' + name);
  });
}
