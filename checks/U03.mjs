import { load } from '../lib/bundle.mjs';
import { graphGen, diffGraph, snapshot, keyGen, reach } from '../lib/values.mjs';
export const rule = 'objects with string, numeric-like and symbol keys, non-enumerable and inherited properties, and request lists; non-trivial: distinct object and list';
export const assumptions = ['numeric keys are requested as strings'];
const SY = [Symbol.for('a'), Symbol.for('b'), Symbol('c')];
export default async function (ctx) {
  const { allAttrs, lackAttrs, copyAttrs } = load('util');
  const mk = c => {
    const proto = c.pick([Object.prototype, null, { inh: 1, a: 2 }]), o = c.pick([() => Object.create(proto), () => [], () => function f(a) { }, () => new Date(0), () => Object('ab'), () => new Map()])();
    for (let i = 0, n = c.int(0, 6); i < n; i++) { const k = c.bool(0.25) ? c.pick(SY) : keyGen(c); if (Object.hasOwn(o, k)) continue; try { Object.defineProperty(o, k, { value: c.pick([undefined, null, 0, '', false, 1, 'x']), enumerable: c.bool(0.7), writable: true, configurable: true }); } catch { } }
    return o;
  };
  const own = o => [...Object.getOwnPropertyNames(o), ...Object.getOwnPropertySymbols(o)];
  await ctx.section('query', ctx.n(6000), async c => {
    const o = c.bool(0.9) ? mk(c) : c.pick([null, undefined, 1, 'abc', true, 5n]), isO = (typeof o === 'object' && o) || typeof o === 'function';
    const req = c.arr(0, 6, () => c.bool(0.2) ? c.pick(SY) : c.bool(0.3) && isO && own(o).length ? c.pick(own(o)) : c.pick([keyGen(c), 'inh', 'a', 'toString', '__proto__', '0', 'length', 0, 1, 5, -0, 1.5, NaN, 1e21]));
    const o0 = isO ? own(o) : [], rq = req.slice(); c.ev({ o, req });
    const all = allAttrs(o); c.ok(Array.isArray(all) && all.length === o0.length && o0.every(k => all.includes(k)), 'allAttrs', () => `allAttrs gave ${all.map(String)} for ${o0.map(String)}`);
    const want = o === null || o === undefined ? [] : req.filter(k => !o0.includes(typeof k === 'number' ? String(k) : k));
    const got = lackAttrs(o, req); c.ok(Array.isArray(got) && got.length === want.length && got.every((k, i) => Object.is(k, want[i])), 'lackAttrs', () => `lackAttrs gave ${got.map(String)}, expected ${want.map(String)}`);
    c.ok(req.length === rq.length && req.every((k, i) => Object.is(k, rq[i])) && (!isO || own(o).length === o0.length), 'modified', 'arguments modified');
  });
  await ctx.section('many', ctx.n(12, 4), async c => {
    const n = c.pick([257, 1001, 5001, 65537]), o = {}; for (let i = 0; i < n; i++) Object.defineProperty(o, i % 5 ? 'k' + i : Symbol('s' + i), { value: i, enumerable: i % 3 > 0, configurable: true, writable: true }); const o0 = own(o), req = [...o0.slice(-9), 'none', ...o0.slice(0, 9), ...(c.bool() ? o0 : [])], absent = c.arr(1, 5, i => 'absent' + i), mixed = c.shuffle([...req, ...absent]); c.ev({ n }, c.label);
    c.eq(allAttrs(o).length, n, 'allAttrs'); const s = new Set(allAttrs(o)); c.ok(o0.every(k => s.has(k)), 'allAttrs', 'allAttrs of an object with many keys'); c.eq(lackAttrs(o, mixed), mixed.filter(k => typeof k === 'string' && /^(none|absent)/.test(k)), 'lackAttrs');
    const d = {}; copyAttrs(o, d); c.ok(own(d).length === n && o0.every(k => d[k] === o[k]), 'copyAttrs', 'copyAttrs of an object with many keys');
  });
  await ctx.section('copyAttrs', ctx.n(4000), async c => {
    const KK = ['object', 'array', 'null-object', 'date', 'map', 'set'];
    const obj = () => { const o = c.bool(0.8) ? {} : Object.create(null); for (let i = 0, n = c.int(0, 6); i < n; i++) { const k = c.bool(0.2) ? c.pick(SY) : c.pick(['a', 'b', 'c', '0', 'x', '', 'length', '__proto__', 'constructor', 'toString']); if (!Object.hasOwn(o, k)) Object.defineProperty(o, k, { value: c.bool(0.5) ? graphGen(c, { kinds: KK, cycles: c.bool(0.3), share: 0.1 }) : c.pick([undefined, null, 0, 1, 's']), enumerable: c.bool(0.85), writable: true, configurable: true }); } return o; };
    const src = obj(), dest = obj(), lacked = c.pick([true, false, undefined]), src0 = snapshot(src), dest0 = snapshot(dest); c.ev({ src, dest, lacked });
    const proto = Object.getPrototypeOf(dest), dvals = new Map(own(dest).map(k => [k, dest[k]]));
    const r = lacked === undefined ? copyAttrs(src, dest) : copyAttrs(src, dest, lacked);
    c.ok(r === dest, 'returns-dest', 'did not return the destination');
    let d = diffGraph(src0, src, { sharing: true, nonEnum: true }); c.ok(!d, 'src-modified', () => d);
    const so = reach(src);
    const taken = own(src).filter(k => !(lacked && dvals.has(k)));
    c.ok(own(dest).length === new Set([...dvals.keys(), ...taken]).size, 'keys', 'destination has other keys');
    c.ok(Object.getPrototypeOf(dest) === proto, 'prototype', 'the destination has another prototype'); for (const k of taken) { const e = diffGraph(src[k], dest[k], { sharing: true }); c.ok(!e, 'value', () => `attribute ${String(k)}: ${e}`); for (const x of reach(dest[k])) c.ok(!so.has(x), 'not-deep', () => `attribute ${String(k)} shares an object with the source`); }
    for (const [k, v] of dvals) if (!taken.includes(k)) { c.ok(Object.is(dest[k], v), 'touched', () => `attribute ${String(k)} was replaced`); const e = diffGraph(dest0[k], dest[k], { sharing: true }); c.ok(!e, 'touched', () => e); }
  });
  await ctx.section('nullish', 1, async c => { for (const s of [null, undefined, {}, { a: 1 }, [1]]) for (const d of [null, undefined]) { c.ev([s, d]); c.ok(copyAttrs(s, d) === d, 'nullish', 'copyAttrs to nothing'); } const o = { a: 1 }; c.ok(copyAttrs(null, o) === o && Object.keys(o).length === 1, 'nullish', 'from null'); });
}
