import { load } from '../lib/bundle.mjs';
export const rule = 'arrays of primitives, strings and nested arrays against reference definitions; non-trivial: distinct input';
export const assumptions = ['arrays are dense; range is used with whole numbers or binary fractions, or any end (its documentation advises against fractions); sortByEngInitials is given non-empty words'];
export default async function (ctx) {
  const A = load('array');
  const prim = c => c.pick([0, -0, 1, 2, 3, NaN, '', 'a', '1', null, undefined, true, false, 1n, 2n, Symbol.iterator, Symbol.for('a')]);
  const SVZ = (a, b) => a === b || (a !== a && b !== b);
  await ctx.section('unique', ctx.n(3000), async c => {
    const objs = [{}, {}, []], a = c.arr(0, c.pick([3, 6, 12]), () => c.bool(0.2) ? c.pick(objs) : prim(c)), b = a.slice(); c.ev(a);
    c.ok(A.isUnique(a) === a.every((x, i) => !a.slice(0, i).some(y => SVZ(x, y))), 'isUnique', 'isUnique');
    if (a.length && c.bool(0.1)) { const h = a.slice(); for (let k = c.int(1, 2); k > 0; k--) delete h[c.int(0, h.length - 1)]; c.ok(A.isUnique(h) === (new Set(Array.from(h)).size === h.length), 'isUnique', 'isUnique of an array with missing items'); } const args = c.arr(0, 4, () => c.bool(0.6) ? c.arr(0, 6, () => prim(c)) : prim(c)), all = args.flat(), want = all.filter((x, i) => !all.slice(0, i).some(y => SVZ(x, y)));
    const r = A.uniqueFromPrimitive(...args); c.ok(r.length === want.length && r.every((x, i) => SVZ(x, want[i])), 'uniqueFromPrimitive', () => 'uniqueFromPrimitive: wrong items', args);
    c.ok(a.length === b.length && a.every((x, i) => Object.is(x, b[i])), 'input', 'input modified');
  });
  const lv = v => Array.isArray(v) && v.length && v.every(Array.isArray) ? 1 + lv(v.flat()) : 1;
  const depth = v => Array.isArray(v) ? 1 + Math.max(0, ...v.map(depth)) : 0;
  const depthNE = (v, l = 1) => Math.max(0, ...v.map(x => Array.isArray(x) ? depthNE(x, l + 1) : l));
  const nested = (c, d, uniform) => uniform ? (d <= 1 ? c.arr(0, 3, () => c.int(0, 9)) : Array.from({ length: c.int(1, 3) }, () => nested(c, d - 1, true))) : c.arr(0, 4, () => d > 0 && c.bool(0.55) ? nested(c, d - 1) : c.pick([1, 's', null, {}, undefined]));
  await ctx.section('dimension', ctx.n(4000), async c => {
    const v = c.bool(0.1) ? c.pick([null, 1, 'abc', {}, undefined, { length: 1, 0: [] }]) : nested(c, c.int(0, 5), c.bool()), txt = JSON.stringify(v); c.ev(v);
    const L = Array.isArray(v) ? lv(v) : 1;
    if (Array.isArray(v)) { c.eq(A.dimensionLevel(v), L, 'dimensionLevel'); c.eq(A.maxRecursionDepth(v, false), depthNE(v), 'maxRecursionDepth-nonempty'); c.eq(A.maxRecursionDepth(v, true), depth(v), 'maxRecursionDepth'); }
    c.eq(A.maxRecursionDepth(v), depth(v), 'maxRecursionDepth');
    c.eq(A.isMultiDimensional(v), L > 1, 'isMultiDimensional'); const d = c.int(2, 6); c.eq(A.isMultiDimensional(v, d), L >= d, 'isMultiDimensional-n'); c.eq(A.isMultiDimensional(v, d, true), L === d, 'isMultiDimensional-strict'); c.eq(A.isMultiDimensional(v, d, false), L >= d, 'isMultiDimensional-n');
    c.throws(() => A.isMultiDimensional(v, c.pick([1, -2, 1.5, '2', Infinity])), 'invalid-dimension', e => e instanceof TypeError);
    c.ok(JSON.stringify(v) === txt, 'input', 'input modified');
  });
  // sizes around powers of two and ten, with the deciding item anywhere
  await ctx.section('sizes', ctx.n(30, 8), async c => {
    const n = c.pick([33, 64, 65, 100, 101, 128, 129, 256, 257, 1000, 1001, 1024, 1025, 5001, 10001, 65537]), at = c.pick([0, n - 1, n - 2, c.int(1, n - 2)]), from = c.pick([0, n - 1, c.int(0, n - 1)]); c.ev({ n, at, from });
    const kinds = [i => i, i => 's' + i, i => ({ i }), i => i % 2 ? i : String(i - 1), i => Symbol(i), i => BigInt(i)], mk = c.pick(kinds), a = Array.from({ length: n }, (_, i) => mk(i)); c.ok(A.isUnique(a) === true, 'isUnique', `isUnique of ${n} different items`); if (at !== from) { const d = a.slice(); d[at] = d[from]; c.ok(A.isUnique(d) === false, 'isUnique', `isUnique misses a repetition in ${n} items`); if (mk !== kinds[2]) { const u = A.uniqueFromPrimitive(d, c.bool() ? d[0] : d.slice(5)); c.ok(u.length === n - 1 && u.every((x, i) => x === d[i < Math.max(at, from) ? i : i + 1]), 'uniqueFromPrimitive', 'uniqueFromPrimitive of a large array'); } }
    const deep = c.int(1, 30); let leaf = [1]; for (let i = 1; i < deep; i++) leaf = [leaf]; const w = Array.from({ length: n }, (_, i) => i === at ? leaf : 0); c.eq(A.maxRecursionDepth(w), deep + 1, 'maxRecursionDepth'); c.eq(A.maxRecursionDepth(w, false), deep + 1, 'maxRecursionDepth-nonempty'); c.eq(A.dimensionLevel(w), 1, 'dimensionLevel'); c.eq(A.isMultiDimensional(w), false, 'isMultiDimensional');
    const m = Array.from({ length: n }, () => [0]); c.eq(A.isMultiDimensional(m), true, 'isMultiDimensional'); c.eq(A.dimensionLevel(m), 2, 'dimensionLevel'); m[at] = c.pick([0, null, 'x', { length: 1 }]); c.eq(A.isMultiDimensional(m), false, 'isMultiDimensional'); c.eq(A.dimensionLevel(m), 1, 'dimensionLevel');
    const dim = c.int(2, 40); let z = [0]; for (let i = 1; i < dim; i++) z = c.bool(0.2) ? [z, z] : [z]; if (dim < 12 || JSON.stringify(z).length < 1e5) { c.eq(A.dimensionLevel(z), dim, 'dimensionLevel'); for (const d of [dim - 1, dim, dim + 1]) if (d > 1) { c.eq(A.isMultiDimensional(z, d), dim >= d, 'isMultiDimensional-n'); c.eq(A.isMultiDimensional(z, d, true), dim === d, 'isMultiDimensional-strict'); } }
    const ls = Array.from({ length: Math.min(n, 2000) }, () => 'x'.repeat(c.int(2, 20))), k = Math.min(at, ls.length - 1); ls[k] = c.pick(['', 'x', 'y'.repeat(40), 'z'.repeat(70000)]); const l = ls.map(s => s.length), mx = Math.max(...l), mn = Math.min(...l); c.eq(A.maxLengthIndex(ls), l.indexOf(mx), 'maxLengthIndex'); c.eq(A.minLengthIndex(ls), l.indexOf(mn), 'minLengthIndex'); c.eq(A.sortToIndexes(ls), l.map((_, i) => i).sort((i, j) => l[i] - l[j] || i - j), 'sortToIndexes');
    const r = A.range(at, at + n), q = A.range(n, 0, -1); c.ok(r.length === n + 1 && r.every((x, i) => x === at + i) && q.length === n + 1 && q.every((x, i) => x === n - i), 'range', 'a long range');
    const words = Array.from({ length: Math.min(n, 1500) }, () => c.str(1, 6, 'abcdXYZé中')), cp = s => s.charCodeAt(0); for (const rev of [false, true]) { const s = rev ? -1 : 1; c.eq(A.sortByEng(words.slice(), rev), words.slice().sort((x, y) => s * (x < y ? -1 : x > y ? 1 : 0)), 'sortByEng'); c.eq(A.sortByEngInitials(words.slice(), rev), words.slice().sort((x, y) => s * (cp(x) - cp(y))), 'sortByEngInitials'); c.eq(A.sortWords(words.slice(), rev), words.slice().sort((x, y) => rev ? y.localeCompare(x) : x.localeCompare(y)), 'sortWords'); }
  });
  await ctx.section('large', 1, async c => { const v = Array.from({ length: 150000 }, (_, i) => i); c.ev({ n: v.length }); c.eq(A.maxRecursionDepth(v), 1, 'maxRecursionDepth'); c.eq(A.isUnique(v), true, 'isUnique'); c.eq(A.uniqueFromPrimitive(v, v).length, v.length, 'unique'); c.eq(A.shuffle(v).length, v.length, 'shuffle'); c.eq(A.splitByStep(v, 7).length, Math.ceil(v.length / 7), 'step'); });
  await ctx.section('lengths', ctx.n(3000), async c => {
    const longs = [254, 255, 256, 257, 998, 999, 1000, 1001, 65536].map(n => n + c.int(0, 1)), far = c.bool(0.15), pad = c.bool(0.3), a = c.arr(0, c.pick([1, 3, 10]), () => (pad ? c.pick([' ', '\t', '\n ', '']) : '') + 'x'.repeat(far && c.bool() ? c.pick(longs) : c.int(0, c.pick([2, 12]))) + c.pick(['', '中', '😀']) + (pad ? c.pick([' ', '   ', '']) : '')), b = a.slice(), l = a.map(s => s.length); c.ev(a);
    c.eq(A.maxLengthIndex(a), a.length ? l.indexOf(Math.max(...l)) : null, 'maxLengthIndex'); c.eq(A.minLengthIndex(a), a.length ? l.indexOf(Math.min(...l)) : null, 'minLengthIndex');
    c.eq(A.sortToIndexes(a), a.map((_, i) => i).sort((i, j) => l[i] - l[j] || i - j), 'sortToIndexes'); c.eq(a, b, 'input');
  });
  await ctx.section('sort', ctx.n(3000), async c => {
    const word = () => c.str(1, 4, c.pick(['ab', 'abcXYZ', 'aAbB', '中国a1', 'zé😀', '😀\uff21\ufffd\ue000𝒳a'])), a = c.arr(0, c.pick([3, 12, 30]), word), rev = c.bool(); c.ev({ a, rev });
    const lt = (x, y) => x < y ? -1 : x > y ? 1 : 0, s = rev ? -1 : 1, call = (n) => rev ? A[n](a.slice(), true) : A[n](a.slice());
    c.eq(call('sortByEng'), a.slice().sort((x, y) => s * lt(x, y)), 'sortByEng'); c.eq(call('sortByEngInitials'), a.slice().sort((x, y) => s * (x.charCodeAt(0) - y.charCodeAt(0))), 'sortByEngInitials'); c.eq(call('sortWords'), a.slice().sort((x, y) => rev ? y.localeCompare(x) : x.localeCompare(y)), 'sortWords');
  });
  await ctx.section('range', ctx.n(3000), async c => {
    // binary fractions are exact, and so is a whole start and step with any end
    const q = c.bool(0.3) ? c.pick([0.25, 0.125, 2 ** -20]) : 1, from = c.int(-50, 50) * q, step = c.pick([1, -1, 2, -2, 3, 7, -10, 100, c.int(-20, 20)]) * q, to = c.bool(0.1) ? from : c.bool(0.2) ? from + step * c.int(0, 40) + (q === 1 ? c.pick([1e-9, -1e-9, 0.5, 1e-7, -1e-7]) : 0) : c.int(-50, 50) * q; c.ev([from, to, step]);
    if (step === 0 || (from > to && step > 0) || (from < to && step < 0)) { c.throws(() => A.range(from, to, step), 'invalid', e => e instanceof TypeError); return; }
    const want = []; for (let x = from; step > 0 ? x <= to : x >= to; x += step) want.push(x);
    c.eq(A.range(from, to, step), want, 'range'); if (step === 1) c.eq(A.range(from, to), want, 'range-default');
    c.throws(() => A.range(0, 5, c.pick([NaN, Infinity, -Infinity, '1', null])), 'invalid-step', e => e instanceof TypeError);
  });
  await ctx.section('convert', ctx.n(2000), async c => {
    const v = c.pick([null, undefined, 0, '', false, [], [1], [[1]], {}, 'abc', { length: 1 }, NaN, new Set([1])]), o = { allowNull: c.pick([true, false, undefined]), allowUndefined: c.pick([true, false, undefined]) }; c.ev([v, o]);
    const want = Array.isArray(v) ? v : (v === null && !o.allowNull) || (v === undefined && !o.allowUndefined) ? [] : [v]; const r = A.toArray(v, o); c.eq(r, want, 'toArray'); if (Array.isArray(v)) c.ok(r === v, 'toArray-same', 'copied'); c.eq(A.toArray(v), Array.isArray(v) ? v : v == null ? [] : [v], 'toArray-default');
    const a = c.arr(0, 8, i => ({ k: c.pick(['a', 'b', '1', '', 'constructor', 'x y', '__proto__']), v: c.pick([i, undefined, null, { i }]) })), e = Object.fromEntries(a.map(x => [x.k, x.v])); const log = [];
    const r2 = A.toObject(a, x => (log.push(x), x.k), x => x.v); const rep = c.bool(0.3) && a.length ? a.concat(c.picks(a, 3)) : a; let nk = 0, nv = 0; const r3 = A.toObject(rep, x => x.k + nk++, x => [x, nv++]); c.eq(r3, Object.fromEntries(rep.map((x, i) => [x.k + i, [x, i]])), 'toObject-counting'); c.ok(Object.keys(r2).join('|') === Object.keys(e).join('|') && Object.keys(e).every(k => r2[k] === e[k]), 'toObject', 'toObject'); c.ok(log.length === a.length && log.every((x, i) => x === a[i]), 'toObject-keys', 'key function calls');
  });
}
