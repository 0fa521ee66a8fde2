import { load } from '../lib/bundle.mjs';
import { graphGen, diffGraph, reach, snapshot, primGen } from '../lib/values.mjs';
import stream from 'node:stream';
export const rule = 'functions of every written form (random bodies, names, arguments, receivers and own properties), accessors, symbols, web data objects, streams, class instances and unsupported values, alone and inside graphs; non-trivial: distinct source or content';
export const assumptions = ['functions are self-contained (they use no outer variables), sloppy-mode and not bound: only their source text is visible to any copier', 'instances belong to classes whose constructor works without arguments and sets no field (user-defined kinds are documented as unsupported)'];
const KINDS = ['object', 'array', 'null-object', 'date', 'map', 'set', 'typed', 'boxed'];
export default async function (ctx) {
  const { copy } = load('util');
  const O = { sharing: true, attrs: true, nonEnum: true, lastIndex: true };
  const graph = c => graphGen(c, { kinds: KINDS, cycles: c.bool(), share: 0.2, holes: true });
  const settle = async f => { try { return ['ok', await f()]; } catch (e) { return ['throws', e?.name, String(e?.message)]; } };
  const drain = async it => { const out = []; for await (const v of it) { out.push(v); if (out.length > 50) break; } return out; };
  const NAMES = c => c.pick([() => c.str(1, 5, 'abcxyz'), () => c.pick(['get', 'set', 'async', 'static', 'function', 'class', 'new', 'if', 'return', 'constructor', 'of', 'bound', 'prototype', 'arguments', 'eval', 'toString']), () => JSON.stringify(c.str(0, 5, ['a', 'b', ' ', '"', "'", '\\', '\n', '中', '😀', '[', ']', '(', '{', 'get '])), () => String(c.int(0, 99)), () => '中文' + c.int(0, 9), () => `[Symbol.${c.pick(['iterator', 'asyncIterator', 'toPrimitive', 'toStringTag', 'hasInstance'])}]`, () => `[${JSON.stringify(c.str(0, 4, 'ab "\''))}]`, () => `[Symbol.for(${JSON.stringify(c.str(0, 4, 'ab '))})]`])();
  const expr = c => c.pick([() => `a + ${c.int(-9, 99)}`, () => '[b, a]', () => "'[native code]' + a", () => 'typeof a', () => '`${a}}`', () => '({ x: a, y: [b] })', () => '/[)\\]}]/.test(a)', () => 'a ?? b', () => "[...'{(['].length", () => `(${c.int(1, 9)}, b)`])();
  const bodyOf = (c, self) => c.pick([() => `return ${expr(c)};`, () => `/* } ) [native code] */ return ${expr(c)};`, () => `// ]) { [native code] }\n return ${expr(c)};`, () => `if (a) { return ${expr(c)}; } throw new TypeError('no ' + a);`, () => self ? `return this && this.k !== undefined ? [this.k, ${expr(c)}] : ${expr(c)};` : `let s = []; for (const x of [a, b]) s.push(x); return s;`, () => `return { [native\ncode] : 1 }`.replace('[native\ncode]', "'{ [native code] }'") + ';'])();
  const PARAMS = c => c.pick(['a, b', 'a, b = 3', 'a, ...b', 'a = ")", b', '{ length: a } = "}}", b']);
  const forms = {
    function: c => [`(function (${PARAMS(c)}) { ${bodyOf(c, true)} })`, 'call'], named: c => [`(function ${c.pick(['f', 'get', 'async', 'of', '中'])}(${PARAMS(c)}) { ${bodyOf(c, true)} })`, 'call'],
    arrow: c => [`((${PARAMS(c)}) => { ${bodyOf(c)} })`, 'call'], 'arrow-expr': c => [c.bool() ? `(a => ${expr(c).replace(/\bb\b/g, '1')})` : `((a, b) => ${expr(c)})`, 'call'], async: c => [`(async function (${PARAMS(c)}) { ${bodyOf(c, true)} })`, 'call'], 'async-arrow': c => [c.bool() ? `(async a => (${expr(c).replace(/\bb\b/g, '1')}))` : `(async (a, b) => { ${bodyOf(c)} })`, 'call'],
    generator: c => [`(function* (${PARAMS(c)}) { yield a; ${bodyOf(c, true)} })`, 'gen'], 'async-generator': c => [`(async function* (${PARAMS(c)}) { yield b; yield 1; ${bodyOf(c, true)} })`, 'gen'],
    method: c => [`({ ${NAMES(c)}(${PARAMS(c)}) { ${bodyOf(c, true)} } })`, 'call', 1], 'async-method': c => [`({ async ${NAMES(c)}(${PARAMS(c)}) { ${bodyOf(c, true)} } })`, 'call', 1], 'gen-method': c => [`({ *${NAMES(c)}(${PARAMS(c)}) { yield b; ${bodyOf(c, true)} } })`, 'gen', 1], 'async-gen-method': c => [`({ async *${NAMES(c)}(${PARAMS(c)}) { yield a; } })`, 'gen', 1],
    class: c => [`(class ${c.pick(['', 'A', 'get'])} { constructor(a, b) { this.a = a; this.b = b; } m() { return [this.a, ${c.int(0, 9)}]; } static s(a, b) { ${bodyOf(c)} } get g() { return this.b; } })`, 'class'],
  };
  const build = (c, form) => { for (; ;) { const [src, how, lit] = forms[form](c); let v; try { v = new Function('return ' + src)(); } catch { continue; } if (lit) { const k = Reflect.ownKeys(v)[0]; if (k === undefined) continue; v = v[k]; } if (typeof v !== 'function') continue; return { f: v, how, src }; } };
  const same = async (c, f, g, how, what) => {
    for (let i = 0; i < 3; i++) {
      const a = primGen(c), b = primGen(c), self = c.pick([undefined, { k: c.int(0, 9) }, { k: 'x' }]);
      const run = h => how === 'class' ? settle(() => { const o = new h(a, b); return [o.m(), o.g, h.s.call(null, a, b)]; }) : how === 'gen' ? settle(() => drain(h.call(self, a, b))) : settle(() => h.call(self, a, b));
      const x = await run(f), y = await run(g), d = diffGraph(x, y, {}); c.ok(!d, what, () => `the copied function behaves differently (${d}): ${String(f).slice(0, 160)}`);
      ctx.stat('calls_compared');
    }
  };
  await ctx.section('function', ctx.n(1500), async c => {
    const form = c.pick(Object.keys(forms)), { f, how, src } = build(c, form); c.ev([src], src);
    const props = {}; for (let i = 0, n = c.pick([0, 0, 1, 3]); i < n; i++) { const k = c.bool(0.2) ? Symbol.for('p' + i) : 'p' + i; props[k] = c.bool(0.6) ? graph(c) : primGen(c); f[k] = props[k]; }
    const self = c.bool(0.2); if (self) f.self = c.bool() ? f : { f };
    const before = snapshot(props), where = c.pick(['alone', 'alone', 'object', 'array', 'map', 'set']);
    const v = { alone: f, object: { f, g: f, n: { f } }, array: [f, [f]], map: new Map([[f, f]]), set: new Set([f]) }[where], r = copy(v);
    const gs = { alone: () => [r], object: () => [r.f, r.g, r.n.f], array: () => [r[0], r[1][0]], map: () => [...r][0], set: () => [...r] }[where]();
    const g = gs[0]; c.ok(typeof g === 'function' && g !== f, 'function-shared', () => `the copy is the original function itself: ${src}`); c.ok(gs.every(x => x === g), 'function-sharing', 'the copy of a shared function is not shared');
    if (self) c.ok((typeof g.self === 'function' ? g.self : g.self.f) === g, 'function-cycle', 'a self reference does not lead to the copy');
    c.ok(String(g) === String(f), 'source', () => `source differs: ${String(g)}`); c.ok(g.length === f.length, 'function-length', 'length');
    const mine = {}; for (const k of Reflect.ownKeys(props)) mine[k] = g[k]; let d = diffGraph(props, mine, O); c.ok(!d, 'function-props', () => 'own properties of the function: ' + d);
    const a = reach(props); for (const o of reach(mine)) if (o !== mine && a.has(o)) c.fail('function-props-shared', 'a property value is shared');
    d = diffGraph(before, props, O); c.ok(!d, 'function-changed', () => d);
    await same(c, f, g, how, 'function-behaviour'); ctx.stat('form_' + form);
  });
  await ctx.section('accessor', ctx.n(1200), async c => {
    const names = [], parts = [], n = c.int(1, 4);
    for (let i = 0; i < n; i++) { const nm = NAMES(c), kind = c.pick(['get', 'set', 'both']); if (kind !== 'set') parts.push(`get ${nm}() { return [this.store, ${c.int(0, 99)}]; }`); if (kind !== 'get') parts.push(`set ${nm}(${c.pick(['v', 'v', 'v = 1', '[v]', '{ v = 2 }'])}) { this.store = [v, ${c.int(0, 99)}]; }`); }
    let o; try { o = new Function(`return { store: ${c.int(0, 9)}, ${parts.join(', ')} }`)(); } catch { return; }
    if (c.bool(0.4)) for (const k of Reflect.ownKeys(o)) if (k !== 'store') Object.defineProperty(o, k, { enumerable: c.bool(), configurable: c.bool() });
    if (c.bool(0.3)) Object.defineProperty(o, 'arrow', { get: new Function('return () => 42')(), set: c.bool() ? new Function('return function (v) { this.store = v; }')() : undefined, enumerable: c.bool(), configurable: c.bool() });
    c.ev([parts], parts.join()); const root = c.pick([() => o, () => ({ o }), () => [o, o]])(), dig = r => root === o ? r : Array.isArray(root) ? r[0] : r.o, store0 = o.store, r = dig(copy(root));
    c.eq(Reflect.ownKeys(r).map(String), Reflect.ownKeys(o).map(String), 'accessor-keys');
    for (const k of Reflect.ownKeys(o)) {
      const d1 = Object.getOwnPropertyDescriptor(o, k), d2 = Object.getOwnPropertyDescriptor(r, k);
      c.eq([d2.enumerable, d2.configurable, typeof d2.get, typeof d2.set, 'value' in d2], [d1.enumerable, d1.configurable, typeof d1.get, typeof d1.set, 'value' in d1], 'accessor-attrs', undefined);
      if (!('value' in d1)) { c.ok((!d1.get || d1.get !== d2.get) && (!d1.set || d1.set !== d2.set), 'accessor-shared', 'an accessor function is shared'); if (d1.get) { const obj = { store: 'S' }; c.eq(d2.get.call(obj), d1.get.call(obj), 'getter'); } if (d1.set) { const a = {}, b = {}, w = c.pick([7, [7], 'x', undefined]), put = (f, o) => { try { f.call(o, w); } catch (e) { o.e = e.name; } }; put(d1.set, a); put(d2.set, b); c.eq(b, a, 'setter'); try { r[k] = 'changed'; } catch { } c.eq(o.store, store0, 'accessor-leak'); } }
    }
    ctx.stat('accessors', parts.length);
  });
  await ctx.section('native', ctx.n(60), async c => { const f = c.pick([Math.max, String, Map, Array.prototype.push, parseInt, Function.prototype, Promise, ''.toString, Symbol, Object.getOwnPropertyDescriptor(Map.prototype, 'size').get]); c.ev([f.name, c.u32()]); c.ok(copy(f) === f && copy({ f }).f === f, 'native', () => `native function ${f.name} is not kept`); });
  await ctx.section('symbol', ctx.n(150), async c => {
    const s = c.pick([Symbol('x' + c.int(0, 9)), Symbol(), Symbol(''), Symbol.for('r'), Symbol.iterator]); c.ev([String(s), c.u32()]);
    const b = c.bool(), v = b ? Object(s) : s, r = copy(v), q = copy({ v, l: [v] }); for (const x of [r, q.v, q.l[0]]) c.ok(x.valueOf() === s && (!b || x !== v), 'symbol', () => `copy of ${String(s)} does not hold that symbol`);
  });
  await ctx.section('data', ctx.n(800), async c => {
    const text = c.str(0, 30, ['a', 'é', '中', '😀', '\n', '\u0000', '&', '=']), wf = text.toWellFormed?.() ?? text, type = c.pick(['', 'text/plain', 'image/x-y']), extra = c.bool(0.4) ? graph(c) : undefined;
    const kind = c.pick(['url', 'params', 'blob', 'file', 'form', 'sab', 'domexception', 'aggregate', 'arguments', 'error-sub']); c.ev([kind, text, type, c.u32()]);
    const pairs = Array.from({ length: c.int(0, 5) }, () => [c.str(0, 4, 'ab=&é '), c.str(0, 6, 'xy=&中+')]);
    const inner = graph(c), errs = [new Error('a'), inner, ...(c.bool() ? [inner] : [])];
    const make = {
      url: () => new URL(`http://u${c.int(0, 9)}:p@h.example:81/${encodeURIComponent(text)}?${new URLSearchParams(pairs)}#z`), params: () => new URLSearchParams(pairs), blob: () => new Blob([text], { type }), file: () => new File([text], c.str(1, 5, 'ab.中/\\: '), { type, lastModified: c.int(0, 2 ** 40) }),
      form: () => { const f = new FormData(); for (const [k, v] of pairs) c.bool(0.3) ? f.append(k, new File([v], k + 'n', { type, lastModified: 7 })) : f.append(k, v); return f; }, sab: () => { const b = new SharedArrayBuffer(c.int(0, 20)); new Uint8Array(b).set(Buffer.from('0123456789abcdefghij').subarray(0, b.byteLength)); return b; },
      domexception: () => new DOMException(text, c.pick(['AbortError', 'DataCloneError', 'Custom', 'Error'])), aggregate: () => { const e = new AggregateError(errs, text); if (c.bool(0.3)) e.errors.push(e); return e; }, arguments: () => (function () { return arguments; })(...errs), 'error-sub': () => { class MyError extends RangeError { get name() { return 'MyError'; } } const e = new MyError(text); e.code = c.int(0, 9); return e; },
    };
    const v = make[kind](); if (extra !== undefined) v.extra = extra;
    const data = async x => ({ url: () => [x.href, x.username, x.port, x.search, x.hash], params: () => [...x], blob: async () => [x.size, x.type, await x.text()], file: async () => [x.name, x.size, x.type, x.lastModified, await x.text()], form: () => Promise.all([...x].map(async ([k, w]) => [k, typeof w === 'string' ? w : [w.name, w.type, w.lastModified, await w.text()]])), sab: () => [...new Uint8Array(x)], domexception: () => [x.message, x.name, x.code, x.stack], aggregate: () => [x.message, x.errors.length, x.stack, x.errors.indexOf(x)], arguments: () => [x.length, typeof x[0]], 'error-sub': () => [x.message, x.name, x.code, x.stack] })[kind]();
    const want = await data(v), nest = c.bool(0.4), r0 = copy(nest ? { v, l: [v] } : v), r = nest ? r0.v : r0; if (nest) c.ok(r0.l[0] === r, 'data-sharing', () => `a shared ${kind} is copied twice`);
    c.ok(r !== v, 'data-shared', () => `the copy of a ${kind} is the original`); if (kind !== 'arguments') c.ok(Object.getPrototypeOf(r) === Object.getPrototypeOf(v), 'data-kind', () => `the copy of a ${kind} is another kind of object`);
    c.eq(await data(r), want, 'data', `copy of a ${kind}`); c.eq(await data(v), want, 'data-original', `original ${kind} after the copy`);
    if (kind === 'aggregate' || kind === 'arguments') { const l1 = kind === 'aggregate' ? v.errors : [...v], l2 = kind === 'aggregate' ? r.errors : Array.from(r); const d = diffGraph(l1[1], l2[1], O); c.ok(!d, 'data-inner', () => d); if (errs[2] && typeof inner === 'object') c.ok(l2[2] === l2[1], 'data-inner-sharing', 'a value that occurs twice is copied twice'); c.ok(l2[0] !== l1[0] && l2[0].message === 'a', 'data-inner-error', 'the errors are shared'); }
    if (extra !== undefined) { const d = diffGraph(extra, r.extra, O); c.ok(!d, 'data-extra', () => d); const a = reach(extra); for (const o of reach(r.extra)) c.ok(!a.has(o), 'data-extra-shared', 'an own property is shared'); }
    if (kind === 'sab' && v.byteLength) { new Uint8Array(r).fill(255); c.eq(await data(v), want, 'data-leak'); } if (kind === 'params') { r.append('leak', '1'); c.eq(await data(v), want, 'data-leak'); } if (kind === 'form') { r.append('leak', '1'); c.eq(await data(v), want, 'data-leak'); } if (kind === 'url') { r.searchParams.append('leak', '1'); c.eq(await data(v), want, 'data-leak'); }
    ctx.stat(kind);
  });
  await ctx.section('stream', ctx.n(60), async c => {
    const S = c.pick(['Readable', 'Writable', 'Duplex', 'Transform', 'Stream', 'PassThrough']), s = new stream[S](); s.tag = { a: [c.int(0, 9)] }; c.ev([S, c.u32()]);
    const r = copy(s); c.ok(r !== s && r instanceof stream[S] && Object.getPrototypeOf(r) === Object.getPrototypeOf(s), 'stream', S); c.ok(r.tag !== s.tag && JSON.stringify(r.tag) === JSON.stringify(s.tag), 'stream-props', S);
    let n = 0; s.on('ping', () => n++); r.emit('ping'); c.ok(n === 0, 'stream-shared', 'the copy shares its listeners');
  });
  await ctx.section('instance', ctx.n(300), async c => {
    class P { m() { return this.v; } } class Q extends P { get z() { return 1; } } class M extends Map { } class T extends Set { } class L extends Array { } class D extends Date { } class U extends Uint8Array { } class B extends URL { }
    const C = c.pick([P, Q, M, T, L, D, U]); const inner = graph(c); c.ev([C.name, inner]);
    const v = C === M ? new M([[1, inner]]) : C === T ? new T([inner]) : C === L ? c.pick([() => L.of(inner, 2), () => new L(), () => new L(c.int(1, 5)), () => { const l = new L(3); l[1] = inner; return l; }])() : C === D ? new D(c.int(0, 1e12)) : C === U ? U.of(1, 2, 255) : new C(); v.own = inner;
    const r = copy(v), d = diffGraph(v, r, O); c.ok(!d, 'instance', () => `${C.name}: ${d}`); const a = reach(v); for (const o of reach(r)) c.ok(!a.has(o), 'instance-shared', 'shares an object with the original');
  });
  await ctx.section('arguments-cycle', ctx.n(40), async c => {
    const self = c.bool(0.7), inner = { k: c.int(0, 9) }, a = (function () { return arguments; })(1, inner, inner); if (self) c.bool() ? a[0] = a : a.self = { a }; inner.back = c.pick([a, undefined, [a]]); c.ev({ self, i: c.u32() });
    const r = copy(a); c.ok(r !== a && r.length === 3 && r[1] === r[2] && r[1] !== inner && r[1].k === inner.k, 'arguments', 'copy of an arguments object'); if (a[0] === a) c.ok(r[0] === r, 'arguments-cycle', 'a self reference does not lead to the copy'); if (a.self) c.ok(r.self.a === r, 'arguments-cycle', 'a self reference does not lead to the copy'); if (inner.back) c.ok((Array.isArray(inner.back) ? r[1].back[0] : r[1].back) === r, 'arguments-cycle', 'a back reference does not lead to the copy');
  });
  await ctx.section('unsupported', ctx.n(300), async c => {
    const v = c.pick([() => Promise.resolve(1), () => new WeakMap(), () => new WeakSet(), () => new WeakRef({}), () => new Event('x'), () => new EventTarget(), () => new Intl.NumberFormat('en'), () => new AbortController()])(), tag = Object.prototype.toString.call(v);
    let w = v; for (let i = c.int(0, 4); i--;) { const k = w; w = c.pick([() => ({ a: 1, k }), () => [1, k], () => new Map([[1, k]]), () => new Set([k]), () => Object.assign(new Error('e'), { k })])(); }
    c.ev([tag, c.u32()]); let r, threw = false; try { r = copy(w); } catch (e) { threw = e instanceof Error; } c.ok(threw, 'unsupported', () => `copy of a value holding a ${tag} gives ${Object.prototype.toString.call(r)} instead of throwing`);
  });
}
