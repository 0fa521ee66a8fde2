import { load } from '../lib/bundle.mjs';
import { graphGen, diffGraph, reach, snapshot } from '../lib/values.mjs';
export const rule = 'value graphs of 1..120 nodes over every listed kind, with sharing, cycles, holes, extra properties and non-default attributes; non-trivial: distinct graph';
export const assumptions = ['symbols as values, accessors, functions and instances of user classes are outside the statement'];
const KINDS = ['object', 'object', 'object', 'array', 'array', 'null-object', 'date', 'regexp', 'map', 'set', 'arraybuffer', 'dataview', 'typed', 'buffer', 'boxed', 'error'];
export default async function (ctx) {
  const { copy } = load('util');
  const O = { sharing: true, attrs: true, nonEnum: true, lastIndex: true };
  await ctx.section('graph', ctx.n(5000), async c => {
    const kinds = c.bool(0.5) ? KINDS : c.subset(KINDS, 0.4); if (!kinds.length) kinds.push('object');
    const v = graphGen(c, { kinds, cycles: c.bool(0.6), share: c.pick([0, 0.1, 0.35]), holes: true, extra: true, attrs: true, symbolKeys: 0.1, localSym: Symbol('local'), lastIndex: true, protoKey: true, frozen: c.bool(0.4) });
    const before = snapshot(v); c.ev(v);
    const r = copy(v);
    let d = diffGraph(v, r, O); c.ok(!d, 'isomorphic', () => 'copy differs from the original at ' + d);
    d = diffGraph(before, v, O); c.ok(!d, 'original-modified', () => 'the original changed at ' + d);
    const a = reach(v), b = reach(r); let common = 0;
    for (const o of b) if (a.has(o)) common++, c.fail('shared', `the copy shares a ${Object.prototype.toString.call(o)} with the original`);
    ctx.stat('objects_compared', b.size); ctx.statMax('largest_graph', b.size);
  });
  // overwrite everything reachable from the copy; the original must not move
  await ctx.section('mutate', ctx.n(1200), async c => {
    const v = graphGen(c, { kinds: KINDS, cycles: c.bool(), share: 0.2, holes: true, lastIndex: true });
    const before = snapshot(v), r = copy(v); c.ev(v);
    for (const o of reach(r)) {
      if (ArrayBuffer.isView(o)) Buffer.from(o.buffer, o.byteOffset, o.byteLength).fill(0xa5); else if (o instanceof ArrayBuffer) new Uint8Array(o).fill(0xa5);
      else if (o instanceof Map || o instanceof Set) { o.clear(); } else if (o instanceof Date) o.setTime(12345); else if (Array.isArray(o)) o.length = 0; else for (const k of Reflect.ownKeys(o)) { try { delete o[k]; } catch { } }
    }
    const d = diffGraph(before, v, O); c.ok(!d, 'leak', () => 'mutating the copy changed the original at ' + d);
  });
  // large containers of each kind, with sharing inside and between them
  await ctx.section('large', ctx.n(75, 5), async (c, i) => {
    const KS = ['array', 'set', 'map', 'object', 'typed', 'arraybuffer', 'dataview', 'buffer', 'sparse', 'text', 'date-list', 'symbols', 'chain', 'error', 'promo'], kind = KS[i % KS.length], n = c.pick(['object', 'symbols', 'chain'].includes(kind) ? [33, 65, 100, 129, 257, 700] : c.bool(0.4) ? [33, 65, 100, 129, 257] : [501, 1001, 1025, 4097, 10001, 20001]), big = c.pick([129, 1025, 8193, 65536, 65537, 70000, 131073]);
    const sh = [{ s: 1 }, [2], new Date(3), new Map([[1, { t: 4 }]])], item = k => c.bool(0.3) ? c.pick(sh) : c.bool(0.3) ? { k } : k, bytes = m => Uint8Array.from({ length: m }, (_, k) => k * 31);
    const v = { array: () => Array.from({ length: n }, (_, k) => item(k)), set: () => new Set(Array.from({ length: n }, (_, k) => item(k))), map: () => new Map(Array.from({ length: n }, (_, k) => [c.bool(0.3) ? { k } : 'k' + k, item(k)])), object: () => Object.fromEntries(Array.from({ length: n }, (_, k) => ['k' + k, item(k)])), typed: () => new (c.pick([Uint8Array, Float64Array, Int16Array, BigInt64Array]))(bytes(big + (8 - big % 8)).buffer), arraybuffer: () => bytes(big).buffer, dataview: () => new DataView(bytes(big).buffer, c.pick([0, 8, big - 1])), buffer: () => Buffer.from(bytes(big)),
      sparse: () => { const a = []; a.length = c.pick([100, 1e4, 10001, 65537, 1e6, 2 ** 32 - 1]); for (let k = c.pick([0, 0, 1, 5]); k > 0; k--) a[c.int(0, a.length - 1)] = item(k); return a; }, text: () => ({ t: 'a中😀'.repeat(big), b: Object('y'.repeat(big)), g: 7n ** BigInt(n % 2000), r: new RegExp('x'.repeat(n), 'gi') }), 'date-list': () => Array.from({ length: n }, (_, k) => new Date(k * 1e9)), symbols: () => Object.fromEntries(Array.from({ length: n }, (_, k) => [k % 3 ? Symbol('s' + k) : Symbol.for('r' + k), item(k)])), chain: () => { const a = Array.from({ length: n }, (_, k) => ({ k })); a.forEach((x, k) => { x.next = a[(k + 1) % n]; x.prev = a[(k + n - 1) % n]; }); return c.bool() ? a : a[0]; }, error: () => { const e = new RangeError('m'.repeat(big)); e.list = Array.from({ length: n }, (_, k) => item(k)); e.cause = e.list; return e; }, promo: () => { const b = bytes(64); return Array.from({ length: n }, (_, k) => k % 5 === 0 ? new Uint8Array(b.buffer, k % 60, 4) : k % 5 === 1 ? Buffer.from([k & 255]) : k % 5 === 2 ? new RegExp('a' + k) : k % 5 === 3 ? Object(k) : Object.create(null)); } }[kind]();
    const root = c.pick([() => v, () => ({ v, w: v }), () => [...sh, v], () => new Map([[v, sh], [sh[1], v]])])(), before = snapshot(root); c.ev({ kind, n, big }, kind + n + c.label);
    const r = copy(root); let d = diffGraph(root, r, O); c.ok(!d, 'isomorphic', () => `copy of a large ${kind} differs at ${d}`); const a = reach(root); for (const o of reach(r)) if (a.has(o)) c.fail('shared', `the copy of a large ${kind} shares a ${Object.prototype.toString.call(o)}`); d = diffGraph(before, root, O); c.ok(!d, 'original-modified', () => d); ctx.stat('large_' + kind);
  });
  await ctx.section('deep', ctx.n(30, 5), async c => {
    const n = c.int(50, 600); let v = { end: c.int(0, 9) }; for (let i = 0; i < n; i++) v = c.pick([() => ({ v }), () => [v], () => new Map([[i, v]]), () => new Set([v])])();
    c.ev({ n }, String(n)); const d = diffGraph(v, copy(v), O); c.ok(!d, 'deep', () => d);
  });
}
