import { load } from '../lib/bundle.mjs';
import { graphGen, snapshot, diffGraph } from '../lib/values.mjs';
export const rule = 'value graphs of plain objects, arrays, dates, maps, boxed values, class instances, toJSON holders, functions, symbols and bigints, shared or cyclic, with every replacer kind, indentation and key order; non-trivial: distinct value and options';
const put = (o, k, v) => Object.defineProperty(o, k, { value: v, writable: true, enumerable: true, configurable: true });
export default async function (ctx) {
  const { stringify } = load('object');
  class K { constructor(v) { this.v = v; this.q = [v]; } }
  const isC = x => Array.isArray(x) || (x && typeof x === 'object' && [Object.prototype, null].includes(Object.getPrototypeOf(x)));
  function gen(c, cycles) {
    const v = graphGen(c, { kinds: ['object', 'object', 'object', 'array', 'array', 'date', 'map', 'boxed', 'null-object'], cycles, share: 0.15, protoKey: true });
    const big = c.bool(0.06), seen = new Set();
    (function fix(o) { if (!isC(o) || seen.has(o)) return; seen.add(o); for (const k of Object.keys(o)) { const x = o[k]; if ((typeof x === 'bigint' || (typeof x === 'object' && x && Object.prototype.toString.call(x) === '[object BigInt]')) && !big) put(o, k, 7); else if (x instanceof Date && isNaN(x) || x instanceof Map && 0) put(o, k, 'd'); else if (typeof x === 'number' && c.bool(0.08)) put(o, k, c.pick([() => 1, Symbol('s'), new K({ b: 1, a: [2] }), { toJSON(k) { return { k, z: 1, a: 2 }; } }])); else fix(x); } })(v);
    return v;
  }
  const cyclic = v => { const st = new Set(), done = new Set(); const go = x => { if (!x || typeof x !== 'object') return false; if (st.has(x)) return true; if (done.has(x)) return false; st.add(x); const r = Object.keys(x).some(k => go(x[k])); st.delete(x); done.add(x); return r; }; return go(v); };
  const plain = x => x && typeof x === 'object' && Object.getPrototypeOf(x) === Object.prototype && Object.prototype.toString.call(x) === '[object Object]';
  // reference: copy with the keys sorted and cycles marked
  function marked(v, compare, path = [], stack = new Map()) {
    if (!v || typeof v !== 'object') return v;
    if (stack.has(v)) return `[Circular *${stack.get(v).join('.')}]`;
    if (!Array.isArray(v) && !plain(v)) return v;
    stack.set(v, path); let r;
    if (Array.isArray(v)) r = v.map((x, i) => marked(x, compare, [...path, String(i)], stack));
    else { const ks = Object.keys(v); if (compare) ks.sort((a, b) => compare({ key: a, value: v[a] }, { key: b, value: v[b] })); r = {}; for (const k of ks) put(r, k, marked(v[k], compare, [...path, k], stack)); }
    stack.delete(v); return r;
  }
  const native = (v, rep, sp) => { try { return { text: JSON.stringify(v, rep, sp) }; } catch (e) { return { error: e }; } };
  const run = async (v, o) => { try { return { text: await (o === undefined ? stringify(v) : stringify(v, o)) }; } catch (error) { return { error }; } };
  const agree = (c, got, want, key) => { c.ok(('error' in got) === ('error' in want), key, () => `${key}: ${'error' in got ? 'rejected' : 'resolved ' + got.text} but JSON.stringify ${'error' in want ? 'throws' : 'gives ' + want.text}`); if (!('error' in got)) c.ok(got.text === want.text, key, () => `${key}: ${got.text} expected ${want.text}`); };
  const cmps = [undefined, undefined, (a, b) => a.key < b.key ? -1 : a.key > b.key ? 1 : 0, (a, b) => a.key < b.key ? 1 : a.key > b.key ? -1 : 0, (a, b) => a.key.length - b.key.length || (a.key < b.key ? -1 : 1), (a, b) => (typeof a.value < typeof b.value ? -1 : typeof a.value > typeof b.value ? 1 : 0)];
  const isClassy = v => { let f = false; const s = new Set(); (function w(x) { if (f || !x || typeof x !== 'object' || s.has(x)) return; s.add(x); if (!Array.isArray(x) && !plain(x) && Object.keys(x).length) f = true; if (plain(x) && typeof x.toJSON === 'function') f = true; Object.keys(x).forEach(k => w(x[k])); })(v); return f; };
  await ctx.section('acyclic', ctx.n(4000), async c => {
    const v = c.bool(0.08) ? c.pick([undefined, null, 5, 'x"', true, NaN, -0, () => 1, Symbol('x'), 10n, new Date(5), Object('b'), [], {}, [undefined, () => 1, Symbol('q')]]) : gen(c, false), space = c.pick([undefined, undefined, 0, 1, 4, 10, 12, '\t', '--', '', 'abcdefghijklm']), snap = snapshot(v);
    c.ev([v, space]); agree(c, await run(v, space === undefined ? c.pick([undefined, {}]) : { space }), native(v, undefined, space), 'plain');
    const cmp = c.pick(cmps); if (cmp && !isClassy(v)) { agree(c, await run(v, { space, compare: cmp }), native(marked(v, cmp), undefined, space), 'compare'); }
    c.eq(diffGraph(v, snap, { sharing: true, order: true }), null, 'argument');
  });
  const reps = [(k, v) => v, (k, v) => typeof v === 'number' ? undefined : v, (k, v) => typeof v === 'string' ? v + '!' : v, (k, v) => k === 'a' ? undefined : v, (k, v) => k === 'b' ? { r: [k] } : v, (k, v) => Array.isArray(v) ? v.length : v, (k, v) => v === null ? { was: 'null' } : v, () => undefined, (k, v) => k === '' ? v : k];
  await ctx.section('replacer-function', ctx.n(2500), async c => {
    const v = gen(c, false), i = c.int(0, reps.length - 1), space = c.pick([undefined, 2]), cmp = c.pick(cmps); c.ev([v, i]);
    agree(c, await run(v, { replacer: reps[i], space }), native(v, reps[i], space), 'replacer');
    if (cmp && !isClassy(v) && i !== 4) agree(c, await run(v, { replacer: reps[i], compare: cmp }), native(marked(v, cmp), reps[i]), 'replacer-compare');
    const er = await run(v, { replacer: () => { throw new Error('boom'); } }); c.ok('error' in er, 'replacer-throws', 'a throwing replacer did not reject');
  });
  await ctx.section('replacer-array', ctx.n(2500), async c => {
    const v = gen(c, false), pool = ['a', 'b', 'x', 'y', 'z', 'ab', '', 'length', 'constructor', '1', 2, 7, 1, 'nope', '[', '中']; const all = new Set(); JSON.stringify(snapshotKeys(v), (k, x) => (k === '__proto__' || all.add(k), x));
    const list = c.subset([...pool, ...[...all].slice(0, 20)], 0.4), lb = list.slice(), cmp = c.pick(cmps); c.ev([v, list]);
    const want = native(v, list), got = await run(v, { replacer: list }); c.eq(list, lb, 'list');
    c.ok(('error' in got) === ('error' in want), 'replacer-list', () => `${'error' in got ? 'rejected' : got.text} vs ${want.text}`);
    if (!('error' in got)) { c.ok((got.text === undefined) === (want.text === undefined), 'undefined', 'undefined'); if (got.text !== undefined) c.eq(JSON.parse(got.text), JSON.parse(want.text), 'replacer-list', { v, list }); }
    if (cmp && !isClassy(v)) { const set = new Set(list.map(String)); let root = true; agree(c, await run(v, { replacer: list, compare: cmp }), native(marked(v, cmp), function (k, x) { if (root || Array.isArray(this) || set.has(k)) { root = false; return x; } }), 'replacer-list-compare'); }
  });
  function snapshotKeys(v) { const o = {}; const s = new Set(); (function w(x) { if (!x || typeof x !== 'object' || s.has(x)) return; s.add(x); for (const k of Object.keys(x)) { if (!/^\d+$/.test(k)) put(o, k, 1); w(x[k]); } })(v); return o; }
  await ctx.section('cyclic', ctx.n(4000), async c => {
    const v = gen(c, true), cyc = cyclic(v), cmp = c.pick(cmps.slice(0, 5)), cycles = c.pick([undefined, true, false]); c.ev([v, cycles], c.label + cyc);
    if (isClassy(v)) { const r = await run(v, { cycles }); if (!cyc) agree(c, r, native(v), 'shared'); ctx.stat('classy'); return; }
    const nul = (() => { let f = false; const s = new Set(); (function w(x) { if (!x || typeof x !== 'object' || s.has(x)) return; s.add(x); if (Object.getPrototypeOf(x) === null) f = true; Object.keys(x).forEach(k => w(x[k])); })(v); return f; })(); if (nul && cyc) return void await run(v, { cycles });
    if (cyc && cycles === false) { const r = await run(v, { cycles }); c.ok('error' in r, 'cycles-false', () => `a cyclic value resolved with ${r.text}`); ctx.stat('rejected_cycles'); return; }
    if (cyc) ctx.stat('marked_cycles');
    agree(c, await run(v, { cycles, compare: cmp }), native(marked(v, cmp)), 'cycle-markers');
  });
  // a replacer function with a cyclic value is given the value with the cycles marked
  await ctx.section('cyclic-replacer', ctx.n(2000), async c => {
    const v = gen(c, true), cyc = cyclic(v), cmp = c.pick(cmps.slice(0, 5)), i = c.int(0, 5); if (isClassy(v)) return; let nul = false; const s = new Set(); (function w(x) { if (!x || typeof x !== 'object' || s.has(x)) return; s.add(x); if (Object.getPrototypeOf(x) === null) nul = true; Object.keys(x).forEach(k => w(x[k])); })(v); if (nul && cyc) return;
    const rep = [(k, x) => x, (k, x) => typeof x === 'string' ? `<${x}>` : x, (k, x) => k && Array.isArray(x) ? JSON.stringify(x) : x, (k, x) => k === '' ? { text: JSON.stringify(x) } : x, (k, x) => typeof x === 'string' && x.startsWith('[Circular') ? null : x, (k, x) => x && typeof x === 'object' && !Array.isArray(x) ? Object.keys(x).length : x][i]; c.ev([v, i]); if (cyc) ctx.stat('cyclic_replaced');
    agree(c, await run(v, { compare: cmp, replacer: rep }), native(marked(v, cmp), rep), 'cyclic-replacer');
  });
  // long paths, wide objects, a data key called toJSON
  await ctx.section('sizes', ctx.n(40), async (c, i) => {
    const n = [9, 10, 16, 30, 31, 32, 33, 50, 64, 65, 100, 128, 200][i % 13], root = { a: {} }; let p = root, mid; for (let k = 0; k < n; k++) { const q = k % 3 === 2 ? [0, {}] : { b: 1, a: {} }; p[Array.isArray(p) ? 1 : 'a'] = q; if (k === n >> 1) mid = q; p = q; } if (Array.isArray(p)) p = p[1]; p.up = mid; p.top = root; p.self = p; c.ev([n], 'sizes');
    const cmp = c.pick(cmps.slice(0, 4)); agree(c, await run(root, { compare: cmp }), native(marked(root, cmp)), 'deep-cycle'); c.ok('error' in await run(root, { cycles: false }), 'deep-cycle-refused', 'resolved a cyclic value');
    const wide = {}; for (let k = 0; k < n * 20; k++) wide[`k${(k * 7919) % (n * 20)}`] = k % 50 ? k : [k, { b: 1, a: 2 }]; agree(c, await run(wide, { compare: cmp }), native(marked(wide, cmp)), 'wide'); agree(c, await run(Object.values(wide)), native(Object.values(wide)), 'long-array'); ctx.stat('deep', n);
    const tj = { toJSON: c.pick([1, 'x', null, { z: 1 }]), x: { toJSON: 5, a: 1 }, y: [{ valueOf: 3, toString: 'q' }] }, rep = (k, v) => typeof v === 'number' ? v + 1 : k === 'toJSON' ? 'seen' : v; agree(c, await run(tj), native(tj), 'toJSON-data'); agree(c, await run(tj, { replacer: rep }), native(tj, rep), 'toJSON-replacer');
  });
  const { parseJson } = load('string');
  await ctx.section('parseJson', ctx.n(2000), async c => {
    const v = graphGen(c, { kinds: ['object', 'array', 'object'], share: 0 }); let text; try { text = JSON.stringify(v, null, c.pick([0, 2])) ?? 'null'; } catch { return; } if (c.bool(0.3)) { const i = c.int(0, text.length); text = c.pick([() => text.slice(0, i), () => text.slice(0, i) + c.pick([',', '}', '"', '\n', 'x', '\\']) + text.slice(i), () => ' ' + text + '\n', () => '\ufeff' + text])(); }
    const calls = [], rev = c.pick([undefined, undefined, function (k, x) { calls.push([k, Array.isArray(this)]); return typeof x === 'number' ? -x : x; }, (k, x) => { calls.push(k); return k === 'a' ? undefined : x; }, () => { throw new RangeError('no'); }]); c.ev([text, String(rev)]);
    let want, bad = false, first; try { want = JSON.parse(text, rev); } catch { bad = true; } first = calls.splice(0); let p; try { p = parseJson(text, rev); } catch (e) { return void c.fail('parseJson-throws', `parseJson threw: ${e}`); }
    if (bad) { ctx.stat('invalid_json'); return void await c.rejects(p, 'parseJson-invalid'); } c.eq(await p, want, 'parseJson', text); c.eq(calls, first, 'parseJson-reviver', text); ctx.stat('valid_json');
  });
}
