import { load } from '../lib/bundle.mjs';
export const rule = 'arrays of distinct tokens, duplicates and nested arrays of 0..80 (some of 2000) items with every size and position class; non-trivial: distinct array shape and parameter';
export default async function (ctx) {
  const { splitByStep, splitChunk, flat, shuffle, move, fromArrayLike } = load('array');
  const items = (c, lo = 0, hi = 80) => { const n = c.weighted([[6, c.int(lo, 12)], [3, c.int(lo, hi)], [0.2, 2000]]); return Array.from({ length: n }, (_, i) => c.weighted([[5, { i }], [2, c.int(0, 3)], [1, undefined], [1, null], [1, NaN], [1, 's' + i], [1, [i]], [0.5, -0]])); };
  const eqItems = (c, got, want, key) => c.ok(Array.isArray(got) && got.length === want.length && got.every((v, i) => i in got && Object.is(v, want[i])), key, () => `${key}: items lost, duplicated or reordered (${got?.length} items for ${want.length})`);
  await ctx.section('splitByStep', ctx.n(3000), async c => {
    const v = items(c), b = v.slice(), step = c.pick([1, 2, 3, 5, v.length || 1, v.length + 1, Math.max(1, v.length - 1), c.int(1, 100)]); c.ev({ n: v.length, step });
    const r = splitByStep(v, step); eqItems(c, [].concat(...r), b, 'splitByStep'); eqItems(c, v, b, 'input');
    c.eq(r.map(p => p.length), v.length === 0 ? [0] : Array.from({ length: Math.ceil(v.length / step) }, (_, i) => Math.min(step, v.length - i * step)), 'part-sizes');
  });
  await ctx.section('splitChunk', ctx.n(4000), async c => {
    const v = items(c), b = v.slice(), n = c.pick([1, 2, 3, 4, v.length || 1, v.length + 1, Math.max(1, v.length - 1), c.int(1, 60)]), pad = c.pick([undefined, 'start', 'end']); c.ev({ n: v.length, parts: n, pad });
    const r = pad === undefined && c.bool() ? splitChunk(v, n) : splitChunk(v, n, pad); eqItems(c, [].concat(...r), b, 'splitChunk'); eqItems(c, v, b, 'input');
    const f = Math.floor(v.length / n), d = v.length % n, sz = r.map(p => p.length);
    const want = n >= v.length ? [v.length] : !d || pad === undefined ? Array.from({ length: Math.ceil(v.length / f) }, (_, i) => Math.min(f, v.length - i * f)) : Array.from({ length: n }, (_, i) => f + ((pad === 'start' ? i < d : i >= n - d) ? 1 : 0));
    c.eq(sz, want, 'part-sizes'); if (n < v.length) c.ok(r.length >= n && (!pad || r.length === n), 'part-count', 'wrong number of parts');
  });
  await ctx.section('invalid', ctx.n(200), async c => {
    const bad = c.pick([0, -1, 1.5, NaN, Infinity, '2', null, undefined, -0, {}]), v = items(c, 2, 9); c.ev([bad, v.length]);
    c.throws(() => splitByStep(v, bad), 'step', e => e instanceof TypeError); c.throws(() => splitChunk(v, bad), 'length', e => e instanceof TypeError);
    if (v.length % 2 && v.length > 2) c.throws(() => splitChunk(v, 2, c.pick(['middle', '', 0, null, 'START'])), 'pad', e => e instanceof TypeError);
  });
  await ctx.section('flat', ctx.n(3000), async c => {
    const leaves = []; let n = 0;
    const mk = d => Array.from({ length: c.int(0, 5) }, () => { if (d < 7 && c.bool(0.4)) return mk(d + 1); const x = c.pick([{ n: n++ }, n++, undefined, null, '', 'ab', NaN, new Map(), { length: 2, 0: 'x' }]); leaves.push(x); return x; });
    const v = mk(0), txt = JSON.stringify(v); c.ev(v); eqItems(c, flat(v), leaves, 'flat'); c.ok(JSON.stringify(v) === txt, 'input', 'input modified');
  });
  await ctx.section('shuffle', ctx.n(3000), async c => {
    const v = items(c, 0, 30), b = v.slice(), mode = c.pick(['real', 'zero', 'one', 'seeded']), real = Math.random; c.ev({ n: v.length, mode }, c.label);
    Math.random = { real, zero: () => 0, one: () => 1 - 2 ** -53, seeded: () => c.float() }[mode];
    let r; try { r = shuffle(v); } finally { Math.random = real; }
    eqItems(c, v, b, 'input'); c.ok(r.length === b.length, 'length', 'length changed');
    const cnt = new Map(); for (const x of b) cnt.set(x, (cnt.get(x) || 0) + 1); for (const x of r) { const k = cnt.get(x); c.ok(k > 0, 'permutation', () => 'the result is not a permutation of the input'); cnt.set(x, k - 1); }
  });
  // sizes around powers of two and ten
  await ctx.section('large', ctx.n(10, 4), async c => {
    const n = c.pick([127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4097, 10000, 10001, 65535, 65536, 65537, 100001, 131073, 200000]), v = Array.from({ length: n }, (_, i) => c.bool(0.01) ? { i } : i), b = v.slice(), step = c.pick([1, 2, 7, 64, 100, 1000, 1024, n - 1, n, n + 1]), parts = c.pick([2, 3, 10, 99, 100, 101, 127]), pad = c.pick([undefined, 'start', 'end']), from = c.int(0, n - 1), to = c.int(0, n - 1); c.ev({ n, step, parts, pad, from, to });
    const cat = r => { const o = []; for (const p of r) for (const x of p) o.push(x); return o; };
    const r = splitByStep(v, step); eqItems(c, cat(r), b, 'splitByStep'); c.ok(r.every((p, i) => p.length === Math.min(step, n - i * step)), 'part-sizes', 'splitByStep sizes');
    const k = splitChunk(v, parts, pad); eqItems(c, cat(k), b, 'splitChunk'); c.ok(pad ? k.length === parts && k.every(p => p.length === Math.floor(n / parts) || p.length === Math.ceil(n / parts)) : k.slice(0, -1).every(p => p.length === Math.floor(n / parts)), 'part-sizes', 'splitChunk sizes');
    const s = shuffle(v); c.ok(s !== v && s.length === n && new Set(s).size === n && s.every(x => typeof x === 'number' ? b[x] === x : b[x.i] === x), 'permutation', 'shuffle of a large array'); if (n >= 999) { let far = 0; for (let i = 0; i < n; i++) { const x = s[i], at = typeof x === 'number' ? x : x.i; if (Math.abs(at - i) > n / 2) far++; } c.ok(far > n / 10, 'unmixed', () => `only ${far} of ${n} items moved by more than half the array`); } if (n > 200) c.ok(s.slice(-100).some((x, i) => x !== b[n - 100 + i]) && s.slice(0, 100).some((x, i) => x !== b[i]), 'unmixed', 'the ends of a large array stay in place'); eqItems(c, v, b, 'input');
    if (n < 12000) c.ok(flat([0, v, 1]).length === n + 2, 'flat', 'flat of a large inner array'); if (n < 5000) { const w = []; for (let i = 0, q; i < n; i += q) { q = c.int(1, 40); w.push(c.bool(0.3) ? [v.slice(i, i + q)] : v.slice(i, i + q)); } eqItems(c, flat(w), b, 'flat'); } let deep = b.slice(0, 3); for (let i = c.pick([10, 70, 130, 300, 1000]); i > 0; i--) deep = [deep]; eqItems(c, flat(deep), b.slice(0, 3), 'flat of a deep array');
    eqItems(c, fromArrayLike(v), b, 'fromArrayLike'); const w = b.slice(); w.splice(to, 0, ...w.splice(from, 1)); eqItems(c, move(v, from, to), w, 'move');
  });
  // every order of a short array is reachable
  await ctx.section('shuffle-reach', ctx.n(6, 3), async c => {
    const n = c.int(1, 4), seen = new Set(), real = Math.random; Math.random = () => c.float();
    try { for (let i = 0; i < 1500; i++) seen.add(shuffle([...'abcd'].slice(0, n)).join('')); } finally { Math.random = real; }
    c.ev({ n, seen: [...seen] }); c.eq(seen.size, [1, 1, 2, 6, 24][n], 'reachable-orders');
  });
  await ctx.section('move', ctx.n(4000), async c => {
    const v = items(c, 1, 30), n = v.length; if (!n) return; const b = v.slice(), z = () => c.pick([c.int(-n - 1, n), c.int(-n - 1, n), c.int(-n - 1, n), -0]), from = z(), to = z(); c.ev({ n, from, to });
    const f = from < 0 ? n + from : from, t = to < 0 ? n + to : to;
    if (f < 0 || f >= n || t < 0 || t >= n) { c.throws(() => move(v, from, to), 'range', e => e instanceof RangeError); return eqItems(c, v, b, 'input after a rejected move'); }
    const r = move(v, from, to), w = b.slice(); w.splice(t, 0, ...w.splice(f, 1)); eqItems(c, r, w, 'move'); c.ok(Object.is(r[t], b[f]), 'target', 'the item is not at the requested position');
  });
  await ctx.section('fromArrayLike', ctx.n(600), async c => {
    const v = items(c, 0, 12), like = c.pick([() => (function () { return arguments; })(...v), () => ({ ...v, length: v.length }), () => v])(); c.ev({ n: v.length }); const r = fromArrayLike(like); eqItems(c, r, v, 'fromArrayLike'); c.ok(r !== like, 'new', 'same array');
    const s = c.str(0, 9, 'ab中😀'); c.eq(fromArrayLike(s), s.split(''), 'string');
    const gap = { length: c.int(1, 6) }; for (let i = 0; i < gap.length; i++) if (c.bool(0.5)) gap[i] = c.pick([i, undefined, {}]); const g = fromArrayLike(gap); c.ok(g.length === gap.length && g.every((x, i) => Object.is(x, gap[i])), 'array-like with missing items', () => 'an array-like with missing items');
    const ta = new (c.pick([Uint8Array, Float64Array, Int16Array]))(v.length + 2); eqItems(c, fromArrayLike(ta), [...ta], 'typed array');
  });
}
