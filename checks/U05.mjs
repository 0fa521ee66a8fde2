import { load } from '../lib/bundle.mjs';
import { graphGen, diffGraph } from '../lib/values.mjs';
export const rule = 'random containers over symbols, errors, URLs, arguments, functions, prototypes, sparse arrays, objects with serializer methods and nested promises; the text is evaluated or compared piece by piece; non-trivial: distinct text';
export const assumptions = ['names, own properties and stacks of errors, and boxed symbols are outside the statement (documented as possibly lost)', 'promises settle before the first macrotask or not at all'];
export default async function (ctx) {
  const U = load('util'), { stringify, asyncStringify, toStringMethod, asyncToStringMethod } = U;
  const ev = s => (0, eval)('(' + s + ')');
  const graph = (c, k = ['object', 'array', 'date', 'boxed']) => graphGen(c, { kinds: k, cycles: false, share: 0, skipKeys: ['toString'] });
  const DESC = c => c.bool(0.02) ? c.str(1, 9, ['a"', "b'", '\n', '中']).repeat(c.pick([13, 64, 130, 300, 1200])) : c.pick([() => c.str(0, 6, ['a', '"', "'", '\\', '\n', '中', ')', '(', '\u2028', '😀']), () => 'Symbol.' + c.pick(['iterator', 'nope', 'for', 'asyncIterator', 'constructor', '', 'Symbol.']), () => 'iterator'])();
  // leaves: [value, check(evaluated)]
  const leaf = {
    registered: c => { const s = Symbol.for(DESC(c)); return [s, g => g === s]; }, 'well-known': c => { const s = Symbol[c.pick(['iterator', 'asyncIterator', 'toPrimitive', 'toStringTag', 'species', 'hasInstance', 'match', 'unscopables'])]; return [s, g => g === s]; },
    local: c => { const d = c.bool(0.1) ? undefined : DESC(c), s = Symbol(d); return [s, g => typeof g === 'symbol' && g.description === d && Symbol.keyFor(g) === undefined && g !== Symbol.iterator]; },
    error: c => { const C = c.pick([Error, EvalError, RangeError, ReferenceError, SyntaxError, TypeError, URIError]), m = c.pick(['', DESC(c)]), e = new C(m); return [e, g => Object.getPrototypeOf(g) === C.prototype && g.message === m]; },
    aggregate: c => { const m = c.pick(['', DESC(c)]), es = Array.from({ length: c.bool(0.05) ? c.pick([99, 100, 129]) : c.int(0, 3) }, (_, i) => c.bool(0.3) ? c.pick([undefined, null, 0, '', 'e', false]) : new TypeError('e' + i)); return [new AggregateError(es, m), g => g instanceof AggregateError && g.message === m && g.errors.length === es.length && g.errors.every((e, i) => es[i] instanceof TypeError ? e instanceof TypeError && e.message === 'e' + i : Object.is(e, es[i]))]; },
    domexception: c => { const m = c.pick(['', DESC(c)]); return [new DOMException(m), g => g instanceof DOMException && g.message === m]; },
    url: c => { const u = new URL(`https://a${c.int(0, 9)}.example/${encodeURIComponent(c.str(0, 5, 'a"\'中\\'))}?q=${c.int(0, 9)}#x`); return [u, g => g instanceof URL && g.href === u.href]; }, params: c => { const u = new URLSearchParams([[c.str(0, 3, 'a"\'&中'), c.str(0, 3, 'b=\\+ ')], ['z', '1']]); return [u, g => g instanceof URLSearchParams && String(g) === String(u)]; },
    arguments: c => { const vs = Array.from({ length: c.int(0, 4) }, () => graph(c)); return [(function () { return arguments; })(...vs), g => Array.isArray(g) && !diffGraph(vs, g, { slotsOnly: true })]; },
    function: c => { const n = c.int(0, 99), f = c.pick([() => new Function(`return (a, b) => [a, ${n}]`)(), () => new Function(`return function (a) { return [a, ${n}]; }`)(), () => new Function(`return class { static [Symbol.for("x")]() { return ${n}; } }`)()])(); return [f, g => typeof g === 'function' && String(g) === String(f)]; },
    sparse: c => { const L = c.pick([49, 50, 51, 70, 1000, 100000, 4294967295, c.int(50, 3000)]), a = []; a.length = L; const max = Math.min(L, 4294967295); const ks = new Set(Array.from({ length: c.int(0, 4) }, () => c.pick([0, max - 1, c.int(0, max - 1)]))); for (const k of ks) a[k] = c.pick([1, undefined, 'x', null]); if (ks.size === L) return leaf.registered(c); return [L > 60 || ks.size < L ? a : a, g => Array.isArray(g) && g.length === L && Object.keys(g).length === ks.size && [...ks].every(k => k in g && Object.is(g[k], a[k])), L]; },
    prototype: c => { const C = c.pick([Array, Map, Set, Date, Error, Number, Function, Object, Promise, TypeError, RangeError, SyntaxError, EvalError, ReferenceError, URIError, AggregateError, String, Boolean, RegExp, Symbol, BigInt, WeakMap, WeakSet, ArrayBuffer, DataView, Int8Array, Float64Array, URL, URLSearchParams]); return [C.prototype, g => g === C.prototype]; },
  };
  await ctx.section('leaf', ctx.n(4000), async c => {
    const names = Object.keys(leaf), picks = Array.from({ length: c.int(1, 4) }, () => { const n = c.pick(names); return [n, ...leaf[n](c)]; });
    const box = c.pick(['array', 'object', 'map', 'set', 'null', 'alone']), vs = picks.map(p => p[1]);
    if (picks.length > 1 && new Set(vs).size < vs.length) return;
    const v = box === 'array' ? vs : box === 'object' ? Object.fromEntries(vs.map((x, i) => ['k' + i, x])) : box === 'null' ? Object.assign(Object.create(null), { ...vs }) : box === 'map' ? new Map(vs.map((x, i) => i % 2 ? [x, i] : [i, x])) : box === 'set' ? new Set(vs) : vs[0];
    const s = stringify(v); c.ev([s.slice(0, 200)], s.slice(0, 400)); let g; try { g = ev(s); } catch (e) { c.fail('does-not-evaluate', `${e.message}: ${s.slice(0, 300)}`); }
    const back = box === 'array' ? g : box === 'object' ? vs.map((_, i) => g['k' + i]) : box === 'null' ? vs.map((_, i) => g[i]) : box === 'map' ? [...g].map(([k, w], i) => i % 2 ? k : w) : box === 'set' ? [...g] : [g];
    (box === 'alone' ? picks.slice(0, 1) : picks).forEach(([n, x, ok], i) => { c.ok(ok(back[i]), n, () => `${n} does not come back from ${s.slice(0, 300)}`); ctx.stat(n); });
    c.ok(s.length < 3000 + 400 * picks.length + 40000 * picks.filter(p => { try { return String(p[1].message ?? p[1].description ?? '').length > 9; } catch { return false; } }).length, 'size', () => `text of ${s.length} characters`); c.ok(await asyncStringify(v) === s, 'async', 'asyncStringify gives another text');
  });
  await ctx.section('symbol-keys', ctx.n(400), async c => {
    const keys = [...new Set(Array.from({ length: c.int(1, 4) }, () => leaf[c.pick(['registered', 'well-known', 'local'])](c)[0]))].filter(k => k !== Symbol.toStringTag && k !== Symbol.toPrimitive), o = { a: 1 }; keys.forEach((k, i) => o[k] = i); if (c.bool()) Object.defineProperty(o, Symbol('hidden'), { value: 1, writable: c.bool(), configurable: c.bool() });
    const s = stringify(o); c.ev([s], s); const g = ev(s), got = Object.getOwnPropertySymbols(g); c.eq(got.length, keys.length, 'symbol-keys'); keys.forEach((k, i) => c.ok(g[got[i]] === i && (Symbol.keyFor(k) !== undefined || Object.values(Object.getOwnPropertyDescriptors(Symbol)).some(d => d.value === k) ? got[i] === k : got[i].description === k.description), 'symbol-key', () => `key ${String(k)} became ${String(got[i])}`));
  });
  await ctx.section('serializer', ctx.n(900), async c => {
    const text = c.bool(0.15) ? '' : 't' + c.u32(), mode = c.pick(['sync', 'sync-throws', 'not-function', 'async', 'async-rejects', 'async-throws', 'both', 'class', 'async-pending']), plain = { z: c.int(0, 9) }, calls = [];
    const o = mode === 'class' ? new (class { [toStringMethod]() { calls.push(this === o2()); return text; } })() : { ...plain }; function o2() { return o; }
    if (mode === 'sync') o[toStringMethod] = function () { calls.push(this === o); return text; }; if (mode === 'sync-throws') Object.defineProperty(o, toStringMethod, { value() { throw c.pick([new Error('x'), undefined, null, 0, 'x']); } }); if (mode === 'not-function') Object.defineProperty(o, toStringMethod, { value: text });
    const am = { async: async function () { calls.push(this === o); return text; }, 'async-rejects': async () => { throw new Error('x'); }, 'async-throws': () => { throw new Error('x'); }, both: async () => text, 'async-pending': () => new Promise(() => { }) }[mode]; if (am) Object.defineProperty(o, asyncToStringMethod, { value: am }); if (mode === 'both') Object.defineProperty(o, toStringMethod, { value: () => 'sync' + text });
    c.ev([mode, text]); const ps = '{"z":' + plain.z + '}', wrap = c.bool(), w = wrap ? [1, o, { o }] : o, put = t => wrap ? `[1,${t},{"o":${t}}]` : t;
    const want = { sync: text, class: text, 'sync-throws': ps, 'not-function': ps, async: ps, 'async-rejects': ps, 'async-throws': ps, both: 'sync' + text, 'async-pending': ps }[mode], wantAsync = { async: text, both: text }[mode] ?? want;
    c.eq(stringify(w), put(want), 'serializer'); const n = calls.length; c.eq(await asyncStringify(w), put(wantAsync), 'serializer-async'); c.ok(calls.every(Boolean), 'serializer-this', 'the serializer is called on another receiver'); if (mode === 'async') c.eq(calls.length - n, 1, 'serializer-once');
  });
  await ctx.section('nested-promise', ctx.n(300), async c => {
    const made = []; const realST = globalThis.setTimeout, realCT = globalThis.clearTimeout; const live = new Set(); globalThis.setTimeout = (f, ms, ...a) => { const h = realST((...x) => { live.delete(h); f(...x); }, ms, ...a); live.add(h); return h; }; globalThis.clearTimeout = h => { live.delete(h); realCT(h); };
    try {
      const make = d => { const kind = d ? c.pick(['ok', 'bad', 'pending', 'leaf', 'obj', 'arr']) : 'leaf'; if (kind === 'leaf') { const x = c.int(0, 99); return [x, String(x)]; } if (kind === 'obj') { const [x, t] = make(d - 1), [y, u] = make(d - 1); return [{ a: x, b: y }, `{"a":${t},"b":${u}}`]; } if (kind === 'arr') { const [x, t] = make(d - 1); return [[x, x], `[${t},${t}]`]; } if (kind === 'pending') return [new Promise(() => { }), 'new Promise(() => { /* pending */ })']; let [x, t] = make(d - 1); if (x instanceof Promise) [x, t] = [[x], `[${t}]`]; if (kind === 'ok') return [Promise.resolve(x), `Promise.resolve(${t})`]; const p = Promise.reject(x); p.catch(() => { }); return [p, `Promise.reject(${t})`]; };
      const [v, t] = make(c.int(1, 5)); c.ev([t], t + c.u32()); made.push(t); c.eq(await asyncStringify(v), t, 'nested-promise'); if (!t.includes('pending')) c.eq(live.size, 0, 'timers-left');
      const s = stringify(v); c.ok(!/Promise\.(resolve|reject)|pending/.test(s), 'sync-promise', () => 'stringify knows the state of a promise: ' + s);
    } finally { globalThis.setTimeout = realST; globalThis.clearTimeout = realCT; }
  });
  // many promises at once, each of them possibly in several places
  await ctx.section('many-promises', ctx.n(24, 6), async c => {
    const n = c.pick([31, 32, 33, 64, 65, 100, 129, 201, 257, 600]), kinds = c.subset(['ok', 'bad', 'pending', 'nested', 'late'], 0.6); if (!kinds.length) kinds.push('ok');
    const mk = i => { const k = c.pick(kinds), t = String(i); if (k === 'ok') return [Promise.resolve(i), `Promise.resolve(${t})`]; if (k === 'pending') return [new Promise(() => { }), 'new Promise(() => { /* pending */ })']; if (k === 'bad') { const p = Promise.reject(i); p.catch(() => { }); return [p, `Promise.reject(${t})`]; } if (k === 'late') return [Promise.resolve().then(() => i), `Promise.resolve(${t})`]; return [Promise.resolve([Promise.resolve(i)]), `Promise.resolve([Promise.resolve(${t})])`]; };
    const ps = Array.from({ length: n }, (_, i) => mk(i)), at = c.arr(n, n + 20, i => i < n ? i : c.int(0, n - 1)), v = at.map(i => ps[i][0]); c.ev({ n, kinds, extra: at.length - n }, c.label); const s = await asyncStringify(v); c.ok(s === '[' + at.map(i => ps[i][1]).join(',') + ']', 'many-promises', () => `${n} promises give ${s.slice(0, 300)}`); ctx.statMax('most_promises', n);
  });
  await ctx.section('options', ctx.n(400), async c => {
    const now = c.pick([Date.now(), c.int(0, 2e12), 1700000000999, 1700000000000]), realNow = Date.now; Date.now = () => now;
    try {
      const t = now + c.pick([0, 1, -1, 999, -999, 1000, -1000, c.int(-3000, 3000)]), near = c.pick([true, false, undefined]), d = new Date(t), same = Math.floor(t / 1000) === Math.floor(now / 1000); c.ev([now, t, near]);
      const want = near && same ? '[new Date()]' : `[new Date("${d.toISOString()}")]`; c.eq(stringify([d], near === undefined ? undefined : { nearestDate: near }), want, 'nearestDate'); c.eq(await asyncStringify([d], { nearestDate: near }), want, 'nearestDate-async');
    } finally { Date.now = realNow; }
    const err = new Error('boom' + c.u32()), bad = c.pick([() => ({ toString() { throw err; } }), () => ({ get toString() { throw err; } }), () => Object.assign(Object.create({ toString() { throw err; } }), { a: 1 }), () => { const w = new WeakMap(); w.toString = () => { throw err; }; return w; }])(), list = c.bool(), v = list ? [1, bad] : bad;
    let e1, e2; try { stringify(v); } catch (e) { e1 = e; } try { await asyncStringify(v); } catch (e) { e2 = e; } c.ok(e1 === err && e2 === err, 'error-thrown', 'the error of toString does not reach the caller');
    const seen = []; const h = { errorHandler: e => { seen.push(e); return '"E"'; } }, w = list ? '[1,"E"]' : '"E"'; c.eq(stringify(v, h), w, 'errorHandler'); c.eq(await asyncStringify(v, h), w, 'errorHandler-async'); c.ok(seen.length === 2 && seen.every(e => e === err), 'errorHandler-arg', 'errorHandler receives another error');
    const own = { a: 1, toString() { return 'own' + c.u32.length; } }; c.eq(stringify([own]), '[' + own.toString() + ']', 'own-toString');
  });
}
