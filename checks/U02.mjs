import { load } from '../lib/bundle.mjs';
import { graphGen, diffGraph, snapshot } from '../lib/values.mjs';
export const rule = 'values of the listed grammar (1..120 nodes), text evaluated in a fresh function; non-trivial: distinct value';
export const assumptions = ['properties added to arrays, dates, regexps, maps and sets, lastIndex and symbol descriptions are documented as possibly lost'];
const KINDS = ['object', 'object', 'object', 'array', 'array', 'null-object', 'date', 'regexp', 'map', 'set', 'typed', 'buffer', 'boxed'];
export default async function (ctx) {
  const { stringify, asyncStringify } = load('util');
  const skip = ['toString'];
  const ev = s => (0, eval)('(' + s + ')');
  await ctx.section('value', ctx.n(6000), async c => {
    const kinds = c.bool(0.5) ? KINDS : c.subset(KINDS, 0.4); if (!kinds.length) kinds.push('object');
    const v = graphGen(c, { kinds, cycles: false, share: c.pick([0, 0.2]), holes: true, symbolKeys: 0.06, protoKey: true, skipKeys: skip });
    const before = snapshot(v); c.ev(v);
    const s = stringify(v); c.ok(typeof s === 'string', 'text', 'not a string');
    let back; try { back = ev(s); } catch (e) { c.fail('does-not-evaluate', `${e.message}: ${s.slice(0, 600)}`); }
    let d = diffGraph(v, back, { slotsOnly: true, order: true }); c.ok(!d, 'differs', () => `evaluated value differs at ${d}: ${s.slice(0, 600)}`);
    d = diffGraph(before, v, { sharing: true }); c.ok(!d, 'modified', () => 'the value changed at ' + d);
    c.ok(await asyncStringify(v) === s, 'async', 'asyncStringify gives another text');
    ctx.stat('chars', s.length);
  });
  // sizes, depths and last items that only long or deep values have
  await ctx.section('large', ctx.n(48, 5), async (c, i) => {
    const KS = ['array', 'sparse', 'tail', 'object', 'set', 'map', 'typed', 'floats', 'buffer', 'text', 'deep', 'small'], kind = KS[i % KS.length], n = c.pick([33, 64, 65, 100, 101, 128, 129, 257, 1001, 1025, 4097]); const item = k => c.bool(0.1) ? c.pick([undefined, null, -0, '', { k }, [k]]) : k;
    const tiny = [-5e-324, 5e-324, -1e-320, -(2 ** -1022), -1e-300, 1e-300, -Number.EPSILON, Number.EPSILON / 2, -1e-17, -0, 0, 1.5, -1 / 3, 1e21, -1e21, 1e-7, 123456789012345680000, Number.MAX_VALUE, -Number.MAX_VALUE, NaN, Infinity, -Infinity];
    const v = { array: () => Array.from({ length: n }, (_, k) => item(k)), sparse: () => { const a = []; for (let k = 0; k < n; k += c.int(1, c.pick([2, 9, 60]))) a[k] = item(k); return a; }, tail: () => { const a = Array.from({ length: c.int(0, c.pick([3, 60])) }, (_, k) => c.pick([k, undefined, [undefined]])); const t = c.pick(['undef', 'hole', 'undef2', 'hole-undef', 'undef-hole']); if (/^undef/.test(t)) a.push(undefined); if (t === 'undef2') a.push(undefined); if (/hole/.test(t)) a.length++; if (t === 'hole-undef') a.push(undefined); return a; }, object: () => Object.assign(c.bool() ? {} : Object.create(null), Object.fromEntries(c.shuffle(Array.from({ length: n }, (_, k) => [c.pick(['k', 'Z', '_', '中']) + k, item(k)])))), set: () => new Set(Array.from({ length: n }, (_, k) => item(k))), map: () => new Map(Array.from({ length: n }, (_, k) => [item(k), item(k)])), typed: () => { const C = c.pick([Uint8Array, Int32Array, BigInt64Array, Uint8ClampedArray, Uint16Array]); return C.from({ length: n }, (_, k) => C === BigInt64Array ? -(BigInt(k) ** 3n) : k * 7); }, floats: () => new (c.pick([Float64Array, Float32Array]))(c.picks(tiny, c.int(1, 9))), buffer: () => Buffer.from(Array.from({ length: n }, (_, k) => k)), text: () => ['a"中\\\n😀'.repeat(n), Object('b'.repeat(n)), 10n ** BigInt(n), new RegExp('[/x]'.repeat(n), 'g')], deep: () => { let x = { e: 1 }; for (let k = Math.min(n, 257); k > 0; k--) x = c.pick([() => ({ x }), () => [x], () => new Map([[k, x]]), () => new Set([x])])(); return x; }, small: () => c.picks(tiny, c.int(1, 6)).map(x => c.bool(0.3) ? Object(x) : x) }[kind]();
    const root = c.pick([() => v, () => ({ v }), () => [0, v]])(); c.ev({ kind, n, v: kind === 'tail' || kind === 'small' || kind === 'floats' ? v : 0 }, kind + c.label); const s = stringify(root); let back; try { back = ev(s); } catch (e) { c.fail('does-not-evaluate', `${kind}: ${e.message}: ${s.slice(0, 300)}`); }
    const d = diffGraph(root, back, { slotsOnly: true, order: true }); c.ok(!d, 'differs', () => `a large ${kind}: evaluated value differs at ${d}: ${s.slice(0, 300)}`); c.ok(await asyncStringify(root) === s, 'async', 'asyncStringify gives another text'); ctx.stat('large_' + kind);
  });
  await ctx.section('cycle-deep', ctx.n(60), async c => {
    const n = c.pick([2, 10, 31, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 257, 400, 501, 513, 700]), chain = [{}]; for (let k = 1; k < n; k++) { const x = c.pick([() => ({}), () => []])(); const p = chain[k - 1]; Array.isArray(p) ? p.push(x) : p.x = x; chain.push(x); } const m = c.int(1, 3); for (let k = 0; k < m; k++) { const from = k ? c.pick(chain) : chain[n - 1], to = chain[c.int(0, chain.indexOf(from))]; Array.isArray(from) ? from.push(to) : from['c' + k] = to; }
    c.ev({ n, m }, c.label); const s = stringify(chain[0]); c.eq(s.split('[Circular]').length - 1, m, 'markers'); c.ok(s.length < 40 * n + 200, 'size', () => `a cyclic chain of ${n} objects gives ${s.length} characters`); c.ok(await asyncStringify(chain[0]) === s, 'async', 'asyncStringify gives another text');
  });
  await ctx.section('cycle', ctx.n(1500), async c => {
    const v = graphGen(c, { kinds: ['object', 'array', 'null-object', 'map', 'set'], cycles: false, share: 0, skipKeys: skip });
    const conts = []; (function walk(x, path) { if (typeof x !== 'object' || !x) return; conts.push([x, path]); const p = [...path, x]; if (x instanceof Map) for (const [a, b] of x) { walk(a, p); walk(b, p); } else if (x instanceof Set) for (const a of x) walk(a, p); else for (const k of Object.keys(x)) walk(x[k], p); })(v, []);
    // add k back edges from containers to themselves or an ancestor
    const k = c.int(0, 3); let n = 0;
    for (let i = 0; i < k; i++) {
      const [x, path] = c.pick(conts), to = c.pick([x, ...path]);
      if (x instanceof Map) { if (x.has('cyc' + i)) continue; x.set('cyc' + i, to); } else if (x instanceof Set) { if (x.has(to)) continue; x.add(to); } else if (Array.isArray(x)) x.push(to); else x['cyc' + i] = to;
      n++;
    }
    c.ev(v, stringify(v) + n);
    const s = stringify(v); c.eq(s.split('[Circular]').length - 1, n, 'markers');
    c.ok(await asyncStringify(v) === s, 'async', 'asyncStringify gives another text');
    ev(s.replaceAll('[Circular]', '"C"'));
  });
  await ctx.section('promise', ctx.n(300), async c => {
    const inner = graphGen(c, { kinds: ['object', 'array'], share: 0, skipKeys: skip }), kind = c.pick(['ok', 'bad', 'pending']);
    const p = kind === 'ok' ? Promise.resolve(inner) : kind === 'bad' ? Promise.reject(inner) : new Promise(() => { }); p.catch(() => { });
    const v = c.pick([() => p, () => [1, p], () => ({ p, q: p }), () => new Map([[1, p]])])(); c.ev({ kind, inner });
    const s = await asyncStringify(v); const want = kind === 'ok' ? `Promise.resolve(${stringify(inner)})` : kind === 'bad' ? `Promise.reject(${stringify(inner)})` : 'new Promise(() => { /* pending */ })';
    c.ok(s.includes(want), 'promise-content', () => `${s} does not include ${want}`);
    const r = ev(s); const rp = r instanceof Promise ? r : Array.isArray(r) ? r[1] : r instanceof Map ? r.get(1) : r.p; if (r.q) r.q.catch(() => { });
    if (kind !== 'pending') { const got = await rp.then(x => ['ok', x], x => ['bad', x]); c.ok(got[0] === kind && !diffGraph(inner, got[1], { slotsOnly: true }), 'promise-value', 'evaluated promise settles differently'); }
  });
}
