import { load } from '../lib/bundle.mjs';
import { graphGen, diffGraph, snapshot, keyGen } from '../lib/values.mjs';
export const rule = 'objects of 0..8 own string, index and symbol keys (enumerable or not, accessors, inherited keys, null prototype) with nested, shared and cyclic values; non-trivial: distinct object and argument';
const S = [Symbol.for('s1'), Symbol('s2'), Symbol.iterator], LOOK = ['Symbol(s2)', 'Symbol(s1)', 'Symbol(Symbol.iterator)', 's2', '1', '01', '1.5', '1.0', '-0', '0', 'NaN', '-1', 'undefined', 'null', ''];
const put = (o, k, v) => Object.defineProperty(o, k, { value: v, writable: true, enumerable: true, configurable: true });
export default async function (ctx) {
  const L = load('object');
  const val = c => c.weighted([[4, () => c.pick([0, -0, 1, '', 'x', null, undefined, NaN, true, false])], [1, () => ({ n: 1 })], [1, () => [1, { k: 2 }]], [0.5, () => () => 1], [0.5, () => new Date(0)], [0.3, () => c.pick(S)]])();
  function obj(c, { proto = true, hard = true, lo = 0, hi = 8 } = {}) {
    const base = proto ? c.pick([Object.prototype, null, { inherited: 1, a: 'proto-a' }, class K { get g() { return 1; } }.prototype]) : Object.prototype, o = Object.create(base);
    for (let i = 0, n = c.int(lo, hi); i < n; i++) {
      const k = c.weighted([[6, () => c.pick(['a', 'b', 'c', 'A', 'B', 'Content-Type', 'content-type', 'aB', 'ab', 'length', 'x', '__proto__', '__PROTO__'])], [2, () => keyGen(c)], [1, () => String(c.int(0, 9))], [1, () => c.pick(S)], [0.7, () => c.pick(LOOK)]])();
      const w = hard ? c.bool(0.8) : true, conf = hard ? c.bool(0.85) : true, en = hard ? c.bool(0.85) : true; const v = val(c);
      if (Object.getOwnPropertyDescriptor(o, k)?.configurable === false) continue;
      Object.defineProperty(o, k, hard && c.bool(0.08) ? { get: () => v, enumerable: en, configurable: conf } : { value: v, writable: w, enumerable: en, configurable: conf });
    }
    return o;
  }
  const descs = o => Reflect.ownKeys(o).map(k => [k, Object.getOwnPropertyDescriptor(o, k)]);
  const sameDescs = (a, b) => a.length === b.length && a.every(([k, d], i) => k === b[i][0] && ['value', 'get', 'set', 'writable', 'enumerable', 'configurable'].every(f => Object.is(d[f], b[i][1][f])));
  const plainOrArray = x => Array.isArray(x) || x && typeof x === 'object' && Object.getPrototypeOf(x) === Object.prototype;
  const fns = [Object.keys, Object.getOwnPropertyNames, Object.getOwnPropertySymbols, Reflect.ownKeys];
  await ctx.section('derive-delete', ctx.n(4000), async c => {
    const o = obj(c); if (c.bool(0.25)) c.pick([Object.freeze, Object.seal, Object.preventExtensions])(o); const before = descs(o), proto = Object.getPrototypeOf(o), all = Reflect.ownKeys(o), del = c.weighted([[4, () => c.subset(all)], [1, () => [...c.subset(all), 'nope', S[2]]], [1, () => [...c.subset(all), c.pick(LOOK), c.pick(S)]], [1.5, () => c.subset(all.map(k => typeof k === 'string' && String(Number(k)) === k ? Number(k) : k))], [1, () => c.picks(all.length ? all : ['z'], c.int(0, 4))], [1, () => []]])(); const delB = del.slice();
    c.ev([before.map(x => x[0]), del]);
    const pk = k => typeof k === 'number' ? String(k) : k, dk = del.map(pk), keep = before.filter(([k]) => !dk.includes(k));
    const d = c.bool(0.2) && !del.length ? L.derive(o) : L.derive(o, del);
    c.ok(d !== o && Object.getPrototypeOf(d) === proto, 'derive-proto', 'not a new object with the same prototype'); c.ok(sameDescs(descs(d), keep), 'derive', () => `derived keys ${descs(d).map(x => String(x[0]))}`);
    c.ok(sameDescs(descs(o), before), 'derive-source', 'source changed'); c.eq(del, delB, 'derive-keys');
    const fixed = before.some(([k, x]) => dk.includes(k) && !x.configurable), r = L.deleteAttrs(o, del);
    c.eq(del, delB, 'deleteAttrs-keys'); c.ok(sameDescs(descs(r), keep), 'deleteAttrs', () => `left ${descs(r).map(x => String(x[0]))} of ${before.map(x => String(x[0]))}`); c.ok(Object.getPrototypeOf(r) === proto, 'deleteAttrs-proto', 'prototype'); c.ok(fixed ? r !== o : r === o, 'deleteAttrs-target', 'returned the wrong object');
    if (fixed) c.ok(keep.every(([k, x]) => { const y = Object.getOwnPropertyDescriptor(o, k); return y && Object.is(y.value, x.value); }), 'deleteAttrs-source', 'a kept property of the original was lost');
  });
  await ctx.section('keys-values', ctx.n(4000), async c => {
    const o = c.bool(0.15) ? c.arr(0, 5, () => val(c)) : obj(c), before = descs(o), lv = c.int(0, 3); c.ev([before.map(x => x[0]), lv]);
    const ks = fns[lv](o); c.eq(L.keys(o, lv), ks, 'keys'); if (!lv) c.eq(L.keys(o), ks, 'keys-default');
    const vs = ks.map(k => o[k]); const g = L.values(o, lv); c.ok(g.length === vs.length && g.every((v, i) => Object.is(v, vs[i])), 'values', 'other values'); if (!lv) c.eq(L.values(o), vs, 'values-default');
    const ta = L.toArray(o, undefined, lv); c.ok(ta.length === ks.length && ta.every((e, i) => e.length === 2 && e[0] === ks[i] && Object.is(e[1], vs[i])), 'toArray', 'other entries');
    const conv = L.toArray(o, (k, v) => ({ k, v }), lv); c.ok(conv.length === ks.length && conv.every((e, i) => e.k === ks[i] && Object.is(e.v, vs[i])), 'toArray-converter', 'other entries');
    const nul = L.toArray(o, (k, v) => v === null || v === undefined || v === '' ? v : undefined, lv); c.ok(nul.length === ks.length && nul.every((e, i) => vs[i] == null || vs[i] === '' ? e === vs[i] : e === undefined), 'toArray-empty-results', 'entries without a converted value are missing'); if (!lv) { const t0 = L.toArray(o), t1 = L.toArray(o, (k, v) => ({ k, v })); c.ok([t0.map(e => ({ k: e[0], v: e[1] })), t1].every(t => t.length === ks.length && t.every((e, i) => e.k === ks[i] && Object.is(e.v, vs[i]))), 'toArray-default', 'other entries'); }
    const pk = k => typeof k === 'number' ? String(k) : k, cand = c.pick([() => c.subset(ks).map(k => typeof k === 'string' && String(Number(k)) === k ? Number(k) : k), () => [...c.subset(ks), c.pick([...LOOK, 0, 1, 1.5, 9, -1])], () => c.subset(ks), () => [...c.subset(ks), 'nope'], () => ['nope', 'toString'], () => c.subset(Reflect.ownKeys(o)), () => []])(), any = c.bool();
    const want = any ? cand.some(k => ks.includes(pk(k))) : cand.every(k => ks.includes(pk(k))); c.eq(L.isKeysIncludes(o, cand, lv, any), want, 'isKeysIncludes'); if (!lv) c.eq(L.isKeysIncludes(o, cand, any), want, 'isKeysIncludes-short'); if (!any) c.eq(L.isKeysIncludes(o, cand, lv), want, 'isKeysIncludes-every'); if (!any && !lv) { c.eq(L.isKeysIncludes(o, cand), want, 'isKeysIncludes-default'); if (cand.length === 1) c.eq(L.isKeysIncludes(o, cand[0]), want, 'isKeysIncludes-default-one'); }
    if (cand.length === 1) c.eq(L.isKeysIncludes(o, cand[0], lv, any), want, 'isKeysIncludes-one');
    const ev = Object.values(o), vc = c.subset([...ev, 'nope', NaN, 0, undefined]), inc = v => ev.some(e => e === v || (e !== e && v !== v)); c.eq(L.isValuesIncludes(o, vc, any), any ? vc.some(inc) : vc.every(inc), 'isValuesIncludes');
    if (!any) c.eq(L.isValuesIncludes(o, vc), vc.every(inc), 'isValuesIncludes-default');
    for (const v of vc) if (!Array.isArray(v)) c.eq(L.isValuesIncludes(o, v), inc(v), 'isValuesIncludes-one'); else { c.eq(L.isValuesIncludes(o, [v], any), inc(v), 'isValuesIncludes-array'); c.eq(L.isValuesIncludes(o, [v.slice()], any), false, 'isValuesIncludes-array-copy'); }
    const bad = c.pick([4, -1, 1.5, NaN, '1', null]); c.throws(() => L.keys(o, bad), 'level', e => e instanceof TypeError); c.throws(() => L.values(o, bad), 'level', e => e instanceof TypeError);
    c.ok(sameDescs(descs(o), before), 'source', 'source changed');
  });
  await ctx.section('property', ctx.n(3000), async c => {
    const o = c.bool(0.2) ? c.pick([null, undefined, 5, 'str', true, '', 0, NaN, false, 0n, 7n, S[0], new (class {})(), new (class Named {})(), Object.freeze([1]), () => 1, { '1.5': 'half', 1: 'one', '-1': 'minus', NaN: 'nan' }, Object.create({ un: undefined, a: null }), [5, 6]]) : obj(c), k = c.pick(['a', 'b', 'x', 'inherited', 1, 1.5, -1, NaN, 'un', 'toString', 'g', 'length', 'nope', S[0], '0']); c.ev([o === null ? 'null' : typeof o, o && typeof o === 'object' ? Reflect.ownKeys(o) : typeof o === 'bigint' ? String(o) : o, k]);
    const w = o == null ? undefined : o[k]; c.ok(Object.is(L.getProperty(o, k), w) && Object.is(L.getPropertyGetter(k)(o), w), 'getProperty', 'another value');
    c.eq(L.isPrototypeProperty(o, k), typeof o === 'object' && o !== null && !Object.prototype.hasOwnProperty.call(o, k) && k in o, 'isPrototypeProperty');
    const ctor = o == null ? null : (Object.getPrototypeOf(o)?.constructor ?? null); c.ok(L.constructor(o) === ctor, 'constructor', 'another constructor'); c.eq(L.constructorName(o), ctor ? ctor.name : null, 'constructorName');
    for (const K of [Object, Array, Date, Function, Number]) c.eq(L.isInstanceOf(o, K), o != null && Object.getPrototypeOf(o) === K.prototype, 'isInstanceOf');
    // paths
    const root = { a: { b: [{ c: 0, n: null }, 'q'], inheriting: Object.create({ up: 1 }) }, z: undefined, f: false, d: { e: { t: '', n: 0, f: false, big: 0n, nan: NaN } } }; const path = c.pick([['a'], ['a', 'b'], ['a', 'b', 0], ['a', 'b', '0', 'c'], ['a', 'b', 0, 'n'], ['a', 'b', 0, 'n', 'x'], ['a', 'x', 'y'], ['z'], ['z', 'y'], ['f'], ['f', 'q'], [], ['a', 'inheriting', 'up'], ['toString'], ['a', 'b', 1, 0], ['a', 'b', 'length'], ['constructor', 'name'], ['d', 'e', 't', 'length'], ['d', 'e', 'n', 'toFixed'], ['d', 'e', 'f', 'valueOf'], ['d', 'e', 'nan', 'constructor', 'name'], ['d', 'e', 'big', 'constructor', 'name'], ['d', 'e', 't', 'constructor', 'name', 'length'], ['d', 'e', 't', 'x', 'y'], ['a', 'b', 0, 'c', 'constructor', 'name']]), priv = c.bool(), p0 = path.slice();
    let want = root; for (const s of path) { if (want == null || (priv && !Object.prototype.hasOwnProperty.call(want, s))) { want = undefined; break; } want = want[s]; }
    c.ok(Object.is(L.getFromPaths(root, path, priv), want), 'getFromPaths', () => `another value for ${path.map(String)}`); c.eq(path, p0, 'paths'); if (!priv) c.ok(Object.is(L.getFromPaths(root, path), want), 'getFromPaths-default', () => `another value for ${path.map(String)}`);
  });
  await ctx.section('shallowEqual', ctx.n(4000), async c => {
    const a = obj(c, { proto: c.bool(0.3) }), mode = c.int(0, 6); let b = L.derive(a);
    if (mode === 1) { const k = c.pick(Reflect.ownKeys(b).filter(k => Object.getOwnPropertyDescriptor(b, k).configurable).concat('new')); Object.defineProperty(b, k, { value: val(c), enumerable: true, configurable: true }); }
    if (mode === 2) b = obj(c); if (mode === 3) b = c.pick([null, undefined, 1, a]); if (mode === 4) { b = {}; for (const k of c.shuffle(Object.keys(a))) put(b, k, a[k]); }
    if (mode === 5) { b = {}; const ks = Object.keys(a); ks.forEach((k, i) => { put(b, i === ks.length - 1 ? k + '_' : k, a[k]); }); }
    if (mode === 6) { b = {}; for (const k of Object.keys(a)) put(b, k, typeof a[k] === 'number' ? a[k] === 0 ? (Object.is(a[k], -0) ? 0 : -0) : a[k] : a[k]); }
    c.ev([Object.keys(a).map(k => [k, a[k]]), mode, b && typeof b === 'object' ? Object.keys(b).map(k => [k, b[k]]) : b]);
    const ref = (x, y, cmp) => { if (cmp(x, y)) return true; if (typeof x !== 'object' || !x || typeof y !== 'object' || !y) return false; const k = Object.keys(x), l = Object.keys(y); return k.length === l.length && k.every(n => Object.prototype.hasOwnProperty.call(y, n) && cmp(x[n], y[n])); };
    c.eq(L.shallowEqual(a, b), ref(a, b, Object.is), 'shallowEqual'); c.eq(L.shallowEqual(b, a), ref(b, a, Object.is), 'shallowEqual-swapped');
    const loose = (x, y) => Object.is(x, y) || (x == null) === (y == null) && typeof x === typeof y && typeof x !== 'object'; c.eq(L.shallowEqual(a, b, loose), ref(a, b, loose), 'shallowEqual-compare');
    // a comparison sees the two values first, then each pair of properties with its key
    const log = [], spy = (x, y, k) => { log.push(k); return arguments3(x, y, k); }, arguments3 = (x, y, k) => k !== undefined && (k.length > 1 || Object.is(x, y)); const eq3 = L.shallowEqual(a, b, spy), both = a && b && typeof b === 'object', ka = Object.keys(a), kb = both ? Object.keys(b) : []; c.eq(eq3, !!both && ka.length === kb.length && ka.every(k => Object.prototype.hasOwnProperty.call(b, k) && (k.length > 1 || Object.is(a[k], b[k]))), 'shallowEqual-key'); c.ok(log[0] === undefined && log.slice(1).every((k, i) => k === ka[i]), 'shallowEqual-keys', () => `compared ${log}`); c.eq(L.shallowEqual(a, b, () => true), true, 'shallowEqual-same'); c.eq(L.shallowEqual(a, a, () => false), ka.length === 0, 'shallowEqual-never');
  });
  await ctx.section('toLowerCaseKey', ctx.n(3000), async c => {
    const o = c.bool(0.3) ? obj(c) : Object.fromEntries(c.arr(0, 6, () => [c.bool(0.05) ? c.pick(['__proto__', '__Proto__']) : c.str(1, 3, 'aAbB-É'), val(c)])), before = descs(o), cover = c.pick([true, false, undefined]); c.ev([before.map(x => x[0]), cover]);
    const want = new Map(); for (const k of Reflect.ownKeys(o)) { const l = typeof k === 'symbol' ? k : k.toLowerCase(); if (cover === false && want.has(l)) continue; want.set(l, o[k]); }
    const r = L.toLowerCaseKey(o, ...(cover === undefined ? [] : [cover])); const rk = Reflect.ownKeys(r); c.ok(rk.length === want.size && rk.every(k => want.has(k) && Object.is(r[k], want.get(k))), 'toLowerCaseKey', () => `keys ${rk.map(String)}`); c.ok(r !== o && sameDescs(descs(o), before), 'source', 'source changed');
  });
  await ctx.section('createWithNull', ctx.n(600), async c => {
    const d = c.pick([undefined, {}, Object.fromEntries(c.arr(1, 4, () => [keyGen(c), { value: val(c), enumerable: c.bool(), writable: c.bool(), configurable: c.bool() }]))]); c.ev(d);
    const r = d === undefined ? L.createWithNull() : L.createWithNull(d), w = Object.create(null, d); c.ok(Object.getPrototypeOf(r) === null && sameDescs(descs(r), descs(w)), 'createWithNull', 'another object');
  });
  await ctx.section('sortKeys', ctx.n(4000), async c => {
    const v = graphGen(c, { kinds: ['object', 'object', 'array', 'date', 'map'], cycles: true, share: 0.2, protoKey: true }); if (Object.prototype.toString.call(v) !== '[object Object]' && !Array.isArray(v)) return;
    const deep = c.pick([undefined, false, true]), cmp = c.pick([undefined, (a, b) => a < b ? 1 : a > b ? -1 : 0, (a, b) => a.length - b.length || (a < b ? -1 : 1)]), snap = snapshot(v); c.ev([v, deep, cmp?.toString()]);
    if (c.bool(0.2)) for (const x of new Set(Object.values(v))) if (plainOrArray(x)) Object.freeze(x); const r = L.sortKeys(v, { deep, compare: cmp }); c.ok(r !== v, 'same', 'returned its argument'); c.eq(diffGraph(v, snap, { sharing: true, order: true }), null, 'source');
    const isA = Array.isArray, plain = x => x && typeof x === 'object' && !isA(x) && Object.getPrototypeOf(x) === Object.prototype && Object.prototype.toString.call(x) === '[object Object]';
    const order = o => { const ks = Object.keys(o), w = ks.slice().sort(cmp), t = {}; for (const k of w) put(t, k, 0); return Object.keys(t); };
    const m = new Map(); let depth = 0;
    const walk = (a, b, p, root) => {
      if ((isA(a) || plain(a)) && (deep || root)) {
        if (m.has(a)) return c.ok(m.get(a) === b, 'sharing', `${p}: sharing lost`); m.set(a, b); c.ok(a !== b && isA(a) === isA(b), 'kind', `${p}: not a new container`); depth++;
        if (isA(a)) { c.ok(a.length === b.length, 'length', `${p}: length`); a.forEach((x, i) => walk(x, b[i], `${p}[${i}]`)); }
        else { const ks = order(a); c.ok(ks.join('\0') === Object.keys(b).join('\0'), 'order', () => `${p}: keys ${Object.keys(b)} expected ${ks}`); for (const k of ks) walk(a[k], b[k], `${p}.${k}`); }
      } else c.ok(Object.is(a, b), 'value', `${p}: value replaced`);
    };
    walk(v, r, '$', true); ctx.stat('sortKeys_containers', depth);
    c.throws(() => L.sortKeys(c.pick([null, undefined, 1, 'x', new Date(), new Map(), () => 1])), 'kind', e => e instanceof TypeError);
  });
  // long lists, deep paths, arrays with holes
  await ctx.section('sizes', ctx.n(40), async (c, i) => {
    const n = [31, 32, 33, 64, 65, 100, 255, 256, 257, 999, 1000, 1001, 5000][i % 13], o = {}; for (let k = 0; k < n; k++) o[`k${(k * 7919) % n}`] = k; const ks = Object.keys(o), some = ks.filter((_, k) => k % 3), sb = some.slice(); c.ev([n]); ctx.stat('large', n);
    const d = L.derive(o, some); c.eq(Object.keys(d), ks.filter((_, k) => k % 3 === 0), 'derive-large'); c.ok(L.deleteAttrs({ ...o }, some) && some.join() === sb.join(), 'deleteAttrs-large-list', 'the list of names was changed'); const t = { ...o }; L.deleteAttrs(t, some); c.eq(Object.keys(t), Object.keys(d), 'deleteAttrs-large');
    c.eq([L.isKeysIncludes(o, ks), L.isKeysIncludes(o, [...ks, 'nope']), L.isKeysIncludes(o, [...ks.map(k => k + '_'), ks[n - 1]], true), L.isValuesIncludes(o, Object.values(o)), L.isValuesIncludes(o, [...Object.values(o), n]), L.isValuesIncludes(o, n - 1)], [true, false, true, true, false, true], 'includes-large');
    c.eq(Object.keys(L.sortKeys(o)), ks.slice().sort(), 'sortKeys-large'); c.eq(L.toArray(o).length, n, 'toArray-large'); c.eq(L.values(o), Object.values(o), 'values-large'); c.eq([L.shallowEqual(o, { ...o }), L.shallowEqual(o, { ...o, [ks[n - 1]]: -1 })], [true, false], 'shallowEqual-large'); c.eq(Object.keys(L.toLowerCaseKey(o)).length, n, 'toLowerCaseKey-large');
    let deep = { leaf: 1 }; for (let k = 0; k < n; k++) deep = { a: deep }; const path = Array(n).fill('a'); c.ok(L.getFromPaths(deep, path)?.leaf === 1 && L.getFromPaths(deep, [...path, 'leaf'], true) === 1 && L.getFromPaths(deep, [...path, 'leaf', 'x', 'y']) === undefined, 'deep-path', () => `a path of ${n} keys`);
    const hole = [3, , 1, , ,]; hole.x = 1; const r = L.sortKeys(hole); c.ok(r !== hole && r.length === 5 && !(1 in r) && r[0] === 3 && r[2] === 1, 'holes', 'another array');
  });
  // accessors stay accessors
  await ctx.section('sortKeys-accessors', ctx.n(1500), async c => {
    const o = {}, ks = c.picks(['a', 'b', 'c', 'd', 'e', 'f', '1', '2'], c.int(1, 8)); let reads = 0;
    for (const k of ks) { const kind = c.int(0, 4), n = c.int(0, 9), f = { enumerable: true, configurable: c.bool(0.8) }; if (Object.hasOwn(o, k)) continue; Object.defineProperty(o, k, kind === 0 ? { ...f, get() { reads++; return n; } } : kind === 1 ? { ...f, set(v) { reads += 100; } } : kind === 2 ? { ...f, get: () => n, set() {} } : { ...f, value: kind === 3 ? n : { z: 1, a: { q: n, b: 2 } }, writable: c.bool(0.7) }); }
    const deep = c.bool(), before = descs(o); c.ev([before.map(([k, d]) => [k, Object.keys(d)]), deep]); const r = L.sortKeys(o, { deep }); c.eq(reads, 0, 'accessor-run');
    c.eq(Object.keys(r), Object.keys(Object.fromEntries(Object.keys(o).sort().map(k => [k, 0]))), 'order');
    for (const [k, d] of before) { const e = Object.getOwnPropertyDescriptor(r, k); c.ok(e && 'value' in d === 'value' in e && ['get', 'set', 'writable', 'enumerable', 'configurable'].every(f => Object.is(d[f], e[f])), 'attributes', () => `${k}: other attributes`); if ('value' in d) { if (deep && typeof d.value === 'object') { c.eq(JSON.stringify(e.value), JSON.stringify({ a: { b: 2, q: d.value.a.q }, z: 1 }), 'deep'); } else c.ok(Object.is(d.value, e.value), 'value', `${k}: another value`); } }
    c.ok(sameDescs(descs(o), before), 'source', 'source changed');
  });
}
