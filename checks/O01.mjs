import { load } from '../lib/bundle.mjs';
export const rule = 'key lists of 1..6 identifiers, array indexes and quoted keys (punctuation, quotes, CJK, astral, control characters), and nested objects holding every prefix; non-trivial: distinct key list or text';
const ID = ['\u212b', '\ufb01x', 'a', 'b1', '$x', '_', 'key', 'constructor', 'toString', 'length', '中', 'é', 'x_y$9', 'if', 'class', 'undefined', 'hasOwnProperty'];
const QUOTED = ['a-b', 'a.b', '.', '[', 'a[0', '0a', '10', '-1', '1.5', 'x y', '中文', '😀', "it's", 'say "hi"', '"', "'", '\\', 'a\\', '\\n', 'a\nb', '`${x}`', '${x}', ']'.replace(']', ')'), '//', '/*', ';', "'+x+'", '", x, "', '01', '4294967295', 'a'.repeat(40), 'a\u2028b', 'a\u0000b', '?.a', '?'];
export default async function (ctx) {
  const { fromCascadeKeys, toCascadeKeys, cascade } = load('object');
  const key = c => c.weighted([[5, () => c.pick(ID)], [3, () => c.pick([0, 1, 2, 9, 10, 123, 4294967294, c.int(0, 1e6)])], [4, () => c.pick(QUOTED)],
    [1, () => c.str(1, 6, "ab-_ .$0159+#@!%^&*()=|:;<>,?/~`中é😀\\\"[").trim() || 'z'], [1, () => c.str(1, 6, "ab-_ .'0159+[\\😀").trim() || 'z']])();
  const good = k => typeof k === 'number' || !(k.includes("'") && k.includes('"')) && !/^'[^']+'$|^"[^"]+"$/.test(k);
  const keysOf = c => { let ks; do ks = c.arr(1, 6, () => key(c)); while (!ks.every(good)); return ks; };
  await ctx.section('round-trip', ctx.n(6000), async c => {
    const ks = keysOf(c), b = ks.slice(), o = c.pick([undefined, {}, { startDot: true }, { startDot: false }]); c.ev([ks, o]);
    const text = fromCascadeKeys(ks, o); c.eq(ks, b, 'keys-argument'); c.ok(typeof text === 'string', 'text', 'not a string');
    c.eq(toCascadeKeys(text), b, `round-trip of ${JSON.stringify(text)}`);
    if (b.every(k => typeof k === 'number' || ID.includes(k))) c.eq(text, b.map((k, i) => typeof k === 'number' ? `[${k}]` : (i || o?.startDot ? '.' : '') + k).join(''), 'plain-text');
  });
  // reading
  const build = (c, ks, leaf) => { let v = leaf; for (let i = ks.length - 1; i >= 0; i--) { const h = typeof ks[i] === 'number' && ks[i] < 50 && c.bool() ? [] : c.bool(0.2) ? Object.create(null) : {}; Object.defineProperty(h, ks[i], { value: v, writable: true, enumerable: true, configurable: true }); if (c.bool(0.5) && !Array.isArray(h)) h['other' + i] = { decoy: i }; v = h; } return v; };
  await ctx.section('cascade', ctx.n(6000), async c => {
    const ks = keysOf(c), leaf = c.pick([{ leaf: 1 }, 'v', 0, null, undefined, false, NaN, Symbol.iterator]), o = build(c, ks, leaf), before = JSON.stringify(o);
    const text = fromCascadeKeys(ks.slice(), { startDot: c.bool() }); c.ev([ks, text]);
    globalThis.__pwned = 0; const got = cascade(o, text); c.ok(!globalThis.__pwned, 'evaluated', 'a key was run as code');
    c.ok(Object.is(got, leaf), 'cascade', () => `cascade read ${String(got)} for ${JSON.stringify(text)}`); c.ok(JSON.stringify(o) === before, 'object', 'the object was changed');
    const n = c.int(1, ks.length); let want = o; for (const k of ks.slice(0, n)) want = want[k]; c.ok(Object.is(cascade(o, fromCascadeKeys(ks.slice(0, n))), want), 'prefix', 'another value for a prefix');
  });
  // any quoted text is data, never code
  await ctx.section('quoted-key-is-data', ctx.n(1500), async c => {
    const q = c.pick(['"', "'"]), k = (c.pick(['']) + c.str(1, 14, ["'", '"', '\\', '+', '(', ')', ';', 'globalThis.__pwned=1', '//', '\n', 'a', ' ', '`', '${', '}', ',', ':', '\u2028'])).split(q).join('').trim(); if (!k) return;
    const o = { [k]: { leaf: 1 }, x: { [k]: 5 } }; c.ev([q, k]); globalThis.__pwned = 0;
    const r = cascade(o, `[${q}${k}${q}]`), r2 = cascade(o, `x[${q}${k}${q}]`); c.ok(!globalThis.__pwned, 'evaluated', 'a key was run as code'); c.ok(r === o[k] && r2 === 5, 'cascade', 'wrong value');
  });
  await ctx.section('missing', ctx.n(1200), async c => {
    const ks = c.arr(1, 5, () => c.pick(ID.filter(k => !(k in {})))), o = build(c, ks, { q: 1 }), cut = c.int(0, ks.length), extra = c.arr(1, 3, () => c.pick(['zz', 'yy', 'ww'])); c.ev([ks, cut, extra]);
    const path = [...ks.slice(0, cut), ...extra]; c.eq(cascade(o, fromCascadeKeys(path)), undefined, 'missing value'); c.eq(cascade(c.pick([null, undefined]), fromCascadeKeys(path), undefined, false), undefined, 'no throw');
    c.throws(() => cascade(null, fromCascadeKeys(path)), 'root null', e => e instanceof TypeError);
    c.throws(() => cascade({}, 'a[0]'), 'index of a missing value', e => e instanceof TypeError); c.eq(cascade({}, 'a[0]', undefined, false), undefined, 'no throw');
  });
  // without a mention of isThrow a TypeError comes through, dependencies or not
  await ctx.section('throw-default', ctx.n(200), async (c, i) => {
    const [o, t, d] = [[{}, 'a[0]', undefined], [{}, 'a[i]', { i: 0 }], [{ b: 1 }, 'a["x y"].q', {}], [null, 'a', undefined], [undefined, 'a[k]', { k: 'x' }], [{ a: null }, 'a[0].b', { z: 1 }]][i % 6]; c.ev([i % 6]);
    c.throws(() => cascade(o, t, d), 'default', e => e instanceof TypeError); c.throws(() => cascade(o, t, d, true), 'isThrow', e => e instanceof TypeError); c.eq(cascade(o, t, d, false), undefined, 'no throw');
  });
  // an error of a getter on the way comes through whatever its class, or is swallowed on request
  await ctx.section('getter-error', ctx.n(120), async (c, i) => {
    const err = [new Error('e'), new TypeError('t'), new RangeError('r'), new SyntaxError('s'), 'text', 0, { code: 1 }, null, new EvalError('v'), Object.freeze(new Error('frozen'))][i % 10], bad = { get boom() { throw err; } }, ks = [...c.arr(0, 3, () => c.pick(['a', 'b1', 'x-y', 2])), 'boom', ...c.arr(0, 2, () => c.pick(['q', 0]))], at = ks.indexOf('boom'); let o = bad; for (let k = at - 1; k >= 0; k--) o = { [ks[k]]: o }; const t = fromCascadeKeys(ks.slice()); c.ev([i % 10, ks]);
    let got = c; try { cascade(o, t); } catch (e) { got = e; } c.ok(Object.is(got, err), 'getter-error', () => `${t}: another error: ${String(got)}`); let v = c; try { v = cascade(o, t, undefined, false); } catch (e) { v = e; } c.ok(v === undefined, 'no throw', () => `${t} with isThrow false: ${String(v)}`); ctx.stat('getter_errors');
  });
  // long chains: a value that ends early gives undefined, a complete one its leaf
  await ctx.section('long', ctx.n(60), async (c, i) => {
    const n = [7, 8, 9, 10, 16, 17, 33, 65, 129, 500][i % 10], ks = Array.from({ length: n }, (_, k) => k % 5 === 4 && i % 2 ? k % 40 : c.pick(['a', 'b1', '中', i % 2 ? 'x-y' : 'z'])), o = build(c, ks, 'leaf'); c.ev([n, i % 2]); ctx.stat('long', n);
    const t = fromCascadeKeys(ks); c.eq(toCascadeKeys(t), ks, 'long-keys'); c.ok(cascade(o, t) === 'leaf', 'long-read', 'another value');
    const names = Array.from({ length: n }, (_, k) => 'abc'[k % 3]); for (const cut of [0, 1, n >> 1, n - 1]) c.ok(cascade(build(c, names.slice(0, cut), { q: 1 }), names.join('.')) === undefined, 'long-missing', () => `a chain of ${n} names ended after ${cut}`);
    const opt = fromCascadeKeys(names, { optional: true }); c.eq(opt, names.join('?.'), 'long-optional');
  });
  // dependencies
  await ctx.section('dependencies', ctx.n(1500), async c => {
    const names = ['i', 'j', 'name', 'k1', '中'], deps = Object.fromEntries(names.map(n => [n, c.pick([0, 1, 5, '', 'x', 'a b', 'key', "it's", 0, ''])])), parts = c.arr(1, 5, () => c.weighted([[2, () => { const k = c.pick(['a', 'b', 'zz']); return [`.${k}`, k]; }], [2, () => { const n = c.pick(names); const s = c.pick(['', ' ']); return [`[${s}${n}${s}]`, deps[n]]; }], [1, () => { const n = c.int(0, 30); return [`[${n}]`, n]; }], [1, () => { const k = c.pick(['q-r', 'é', '😀x']); const q = c.pick(['"', "'"]); return [`[${q}${k}${q}]`, k]; }]])());
    const text = parts.map(p => p[0]).join(''), snap = JSON.stringify(deps); c.ev([text, deps]);
    c.eq(toCascadeKeys(text, deps), parts.map(p => p[1]), `keys of ${text}`); c.eq(JSON.stringify(deps), snap, 'dependencies');
    const bad = c.pick([`a[${c.pick(['nope', 'toString', 'constructor', 'valueOf', '1.5', '-1', 'a b'])}]`, 'a[0', 'a]', 'a[]', 'a[ ]', "a['']", 'a[" "]', ']', '[']); c.throws(() => toCascadeKeys(bad, deps), bad);
    c.throws(() => toCascadeKeys(bad), bad); c.throws(() => cascade({ a: {} }, c.pick(['', undefined, null, 5])), 'no key text');
  });
  // the options, and the short lists
  await ctx.section('options', ctx.n(2500), async c => {
    const ks = c.arr(0, 4, () => c.weighted([[5, () => c.pick(ID)], [3, () => c.int(0, 40)], [3, () => c.pick(QUOTED.filter(k => !(k.includes("'") && k.includes('"')) && !/^'[^']+'$|^"[^"]+"$/.test(k)))], [1, () => { const k = c.pick(['q-r', 'a', 'é x', '0']); const q = c.pick(['"', "'"]); return q + k + q; }]])());
    const optional = c.pick([undefined, false, true]), startDot = c.pick([undefined, false, true]), o = c.pick([() => ({ optional, startDot }), () => ({ optional }), () => ({ startDot }), () => undefined, () => null])(); c.ev([ks, o]);
    const oc = o?.optional ? '?' : '', want = ks.map((k, i) => typeof k === 'number' ? `[${k}]` : (ID.includes(k) || k === 'a'.repeat(40)) ? (i ? `${oc}.` : o?.startDot ? '.' : '') + k : /^'[^']+'$|^"[^"]+"$/.test(k) ? `[${k}]` : k.includes("'") ? `["${k}"]` : `['${k}']`).join('');
    c.eq(fromCascadeKeys(ks, o), want, 'text');
  });
  // white space around keys, keys next to brackets, repeated dots
  await ctx.section('spaces', ctx.n(1200), async c => {
    const sp = () => c.pick(['', '', ' ', '  ', '\t']), parts = c.arr(1, 4, () => c.weighted([[3, () => { const k = c.pick(['a', 'b2', 'key', '中']); return [`.${k}${sp()}`, k]; }], [2, () => { const n = c.int(0, 99); return [`[${sp()}${n}${sp()}]`, n]; }], [2, () => { const k = c.pick(['q-r', 'x y', 'a', '0', 'it', '中 b']), q = c.pick(['"', "'"]); return [`[${sp()}${q}${k}${q}${sp()}]`, k]; }], [0.7, () => ['.', null]]])());
    const text = parts.map(p => p[0]).join(''); c.ev(text); c.eq(toCascadeKeys(text), parts.map(p => p[1]).filter(k => k !== null), `keys of ${JSON.stringify(text)}`);
    c.throws(() => toCascadeKeys(text + c.pick(["['']", '[""]', "['", '["]', '[', ']', "[' ']", '[" "]', '[]'])), 'broken tail');
  });
}
