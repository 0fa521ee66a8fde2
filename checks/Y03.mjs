import { inspect } from 'node:util';
import { load } from '../lib/bundle.mjs';
import { graphGen, REGS, keyGen } from '../lib/values.mjs';
export const rule = 'random (helper, arguments) pairs over the pure helpers of eleven packages; every object reachable from the arguments is recorded (keys, descriptors, identities, collection contents, bytes, lastIndex, prototype, extensibility) before and after two calls; non-trivial: distinct (helper, arguments)';
export const assumptions = ['helpers that document a change of their argument (deleteAttrs, copyAttrs target, in-place sorts, move, shuffle) are left out', 'argument validation that throws is compared by its class', 'helpers that hand the expression to String.replace/match (matchOrder, matchSplit, multiReplace, subSpaces, mapReplace) get non-sticky expressions with lastIndex 0, since those methods reset it'];
const isObj = v => typeof v === 'object' ? v !== null : typeof v === 'function';
/** a flat record of everything observable about the objects reachable from v */
export function record(v) {
  const seen = new Set(), q = [v], out = [];
  while (q.length) {
    const x = q.pop(); if (!isObj(x) || seen.has(x)) continue; seen.add(x); out.push('#', x, Object.getPrototypeOf(x), Object.isExtensible(x));
    if (ArrayBuffer.isView(x)) { out.push(Buffer.from(x.buffer, x.byteOffset, x.byteLength).toString('hex')); continue; }
    if (x instanceof Date) out.push(+x);
    if (x instanceof Map) for (const [a, b] of x) { out.push(a, b); q.push(a, b); } else if (x instanceof Set) for (const a of x) { out.push(a); q.push(a); }
    for (const n of Reflect.ownKeys(x)) { const d = Object.getOwnPropertyDescriptor(x, n); out.push(n, d.value, d.get, d.set, d.enumerable, d.writable, d.configurable); if ('value' in d && !(typeof x === 'function' && n === 'prototype')) q.push(d.value); }
  }
  return out;
}
const same = (a, b) => { if (a.length !== b.length) return Math.min(a.length, b.length); for (let i = 0; i < a.length; i++) if (!Object.is(a[i], b[i])) return i; return -1; };
const words = c => Array.from({ length: c.int(0, 6) }, () => c.str(0, 5, 'abAB1 中é')), nums = c => Array.from({ length: c.int(0, 6) }, () => c.int(-3, 9)), text = c => c.str(0, 30, 'ab 1A.中"\'<&;\n，。'), re = c => { const r = c.pick([...REGS(), /a|b/g, /(a)(b)?/gy, /\d+/y, /./gs, /b/]); if (c.bool(0.3)) r.lastIndex = c.int(0, 3); return r; };
const rest = c => { const r = re(c); return r.sticky ? /b|1/g : (r.lastIndex = 0, r); };
const obj = c => { const o = {}; for (let i = c.int(0, 5); i--;) o[keyGen(c)] = c.pick([1, 'x', null, undefined, [1, 2], { a: { b: 1 } }, NaN, () => 1]); if (c.bool(0.2)) Object.defineProperty(o, 'hid', { value: 1, configurable: true }); if (c.bool(0.2)) o[Symbol('s')] = 1; return c.bool(0.15) ? Object.freeze(o) : o; };
const nested = (c, d = 0) => Array.from({ length: c.int(0, 4) }, () => d < 3 && c.bool(0.4) ? nested(c, d + 1) : c.int(0, 9)), lvl = c => c.int(0, 3);
const hole = (c, a) => { if (c.bool(0.25) && a.length) delete a[c.int(0, a.length - 1)]; return c.bool(0.15) ? Object.freeze(a) : a; }, opt = (c, m) => c.bool(0.2) ? undefined : c.bool(0.15) ? Object.freeze(pickSome(c, m)) : pickSome(c, m), pickSome = (c, m) => Object.fromEntries(Object.entries(m).filter(() => c.bool(0.5)).map(([k, f]) => [k, f(c)])), B = c => c.bool();
const cb = c => { const f = v => typeof v === 'number' ? v * 2 : String(v); return c.bool() ? f : async v => f(v); };
const trimO = { space: B, zeroWidth: B, likeSpace: B, control: B }, genO = { position: c => c.int(-2, 5), caseSensitivity: B }, big = c => graphGen(c, { kinds: ['object', 'array', 'null-object', 'map', 'set', 'date', 'regexp', 'buffer', 'error', 'boxed'], skipKeys: ['__proto__'], cycles: c.bool(0.2), share: 0.15 });
const cookieHdr = c => Array.from({ length: c.int(0, 4) }, () => `${c.str(1, 3, 'abc')}=${c.str(0, 4, 'ab%201=')}${c.pick(['', '; Path=/', '; Max-Age=10; Secure', '; HttpOnly; SameSite=Lax', '; Domain=a.b'])}`);
const side = c => ({ startIndex: c.int(0, 3), ...pickSome(c, { escape: B, endIndex: () => 30, marks: () => ({ '(': ')', '[': ']', '{': '}' }) }) });
const TABLE = {
  array: { dimensionLevel: c => [nested(c)], each: c => [hole(c, nums(c)), x => x === 5 ? false : undefined], eachRight: c => [hole(c, nums(c)), () => { }], eachAsync: c => [hole(c, nums(c)), async () => { }], eachParallel: c => [hole(c, nums(c)), async () => { }], eachRightAsync: c => [hole(c, nums(c)), async () => { }], eachRightParallel: c => [nums(c), async () => { }], flat: c => [hole(c, nested(c))], fromArrayLike: c => [c.pick([{ length: 2, 0: 'a', 1: 'b' }, { length: 3, 1: 1 }, nums(c)])], isMultiDimensional: c => [nested(c), c.int(1, 3), c.bool()], isUnique: c => [hole(c, nums(c))], mapAsync: c => [hole(c, nums(c)), cb(c)], mapParallel: c => [hole(c, nums(c)), cb(c)], mapRight: c => [hole(c, nums(c)), v => [v]], mapRightAsync: c => [hole(c, nums(c)), cb(c)], mapRightParallel: c => [hole(c, nums(c)), cb(c)], maxLengthIndex: c => [words(c)], minLengthIndex: c => [words(c)], maxRecursionDepth: c => [nested(c), c.bool()], sortToIndexes: c => [hole(c, words(c)).filter(x => 1)], splitByStep: c => [hole(c, nums(c)), c.int(1, 4)], splitChunk: c => [hole(c, nums(c)), c.int(1, 4), ...c.pick([[], ['start'], ['end']])], toArray: c => [c.pick([nums(c), 1, null, undefined, 'x', new Set([1])]), opt(c, { allowNull: B, allowUndefined: B })], toObject: c => [words(c), w => 'k' + w, w => [w]], toTree: c => [Array.from({ length: c.int(0, 8) }, (_, i) => ({ id: i, parentId: c.int(-1, 8), n: c.str(0, 3, 'abc'), ...(c.bool(0.2) ? { children: [] } : {}) })), pickSome(c, { rootId: () => -1, idKey: () => 'id' })], uniqueFromPrimitive: c => [nums(c), hole(c, words(c)), 1] },
  object: { cascade: c => [{ a: { b: [1, { c: 2 }] }, x: 1 }, c.pick(['a.b[1].c', 'a.b[0]', 'x', 'a["b"]', 'a.q.r']), { k: 'b' }, c.bool()], constructor: c => [big(c)], constructorName: c => [big(c)], createWithNull: c => [{ a: { value: 1, enumerable: true }, b: { get() { return 1; } } }], derive: c => [obj(c), words(c)], fromCascadeKeys: c => [[...words(c), c.int(0, 5)], opt(c, { optional: B, startDot: B })], getFromPaths: c => [{ a: { b: 1 }, x: [1, { y: 2 }] }, c.pick([['a', 'b'], ['x', 1, 'y'], ['q'], []]), c.bool()], getProperty: c => [obj(c), keyGen(c)], isInstanceOf: c => [big(c), c.pick([Array, Map, Object])], isKeysIncludes: c => [obj(c), c.bool() ? words(c) : keyGen(c), lvl(c), c.bool()], isPrototypeProperty: c => [obj(c), 'toString'], isValuesIncludes: c => [obj(c), c.pick([1, 'x', [1, 'x'], []]), c.bool()], keys: c => [obj(c), lvl(c)], shallowEqual: c => { const o = obj(c); return [o, c.bool() ? { ...o } : obj(c)]; }, sortKeys: c => [c.pick([obj(c), { b: 1, a: { d: [{ z: 1, y: 2 }], c: 1 } }, [{ b: 1, a: 2 }]]), opt(c, { deep: B, compare: () => (a, b) => a < b ? 1 : a > b ? -1 : 0 })], stringify: c => [c.bool() ? obj(c) : { z: 1, a: [1, { q: new Date(0) }] }, opt(c, { space: x => x.pick([2, '\t']), cycles: B, compare: () => (a, b) => a.key < b.key ? 1 : -1 })], toArray: c => [obj(c), (k, v) => [k, v], lvl(c)], toCascadeKeys: c => [c.pick(['a.b[0]["c"]', 'a[k].x', 'x', '[0][1]']), { k: 1 }], toLowerCaseKey: c => [obj(c), c.bool()], values: c => [obj(c), lvl(c)] },
  util: { allAttrs: c => [big(c)], copy: c => [big(c)], lackAttrs: c => [obj(c), words(c)], hasToStringMethod: c => [big(c)], hasAsyncToStringMethod: c => [big(c)], stringify: c => [big(c), opt(c, { indent: x => x.pick([1, 2, '\t']) })], asyncStringify: c => [{ a: big(c), p: Promise.resolve(1) }] },
  number: { inRange: c => [c.int(0, 9), c.int(0, 9), c.int(0, 9)], withDelimiter: c => [c.int(0, 1e9), opt(c, { delimiter: () => '_', capacity: x => x.int(1, 4) })], amountInWords: c => [c.int(0, 1e9) / 100, opt(c, { prefix: () => 'P', negative: () => 'N' })] },
  string: { behindOf: c => [text(c), words(c), opt(c, genO)], frontOf: c => [text(c), words(c), opt(c, genO)], notStarts: c => [text(c), words(c), opt(c, genO)], startsSlice: c => [text(c), c.str(1, 2, 'ab'), opt(c, { ...genO, preserve: B })], bindInside: c => ['x(a[b]c){d}', side(c), (s, i) => s === 'c' ? i : undefined], bindOutside: c => ['(a)x[b]y{d}', side(c), () => undefined], corrector: c => [text(c), opt(c, { enhanceRule: B, toHalfWith: B })], fromChars: c => [words(c)], matchOrder: c => [text(c), [rest(c), rest(c)]], matchSplit: c => [text(c), rest(c)], multiReplace: c => [text(c), Array.from({ length: c.int(1, 3) }, () => [c.bool() ? rest(c) : 'a', c.bool() ? 'x' : m => m + '!'])], parseJson: c => [c.pick(['{"a":[1,2]}', '[1]', '{bad', '1']), (k, v) => v], subSpaces: c => [text(c), rest(c), (s, m) => '<' + s + '>'], toSentences: c => [text(c), opt(c, { ellipsis: B })], ...Object.fromEntries(['trim', 'trimAll', 'trimStart', 'trimEnd', 'isSpaceString'].map(n => [n, c => [text(c), opt(c, trimO), c.pick([undefined, 'a', ['a', 'b'], Object.freeze(['1'])])]])) },
  regexp: { execAll: c => [re(c), text(c), ...c.pick([[], ['index'], [m => m[0]]])], mapReplace: c => [[rest(c), rest(c)], text(c), c.bool() ? '_' : m => '[' + m + ']'], testEvery: c => [[re(c), re(c), re(c)], text(c)], testSome: c => [[re(c), re(c), re(c)], text(c)], matchNextIndex: c => [/a/g.exec('bab')] },
  cookie: { createCookie: c => [c.str(1, 4, 'abc'), c.str(0, 5, 'ab1 %'), opt(c, { path: () => '/', domain: () => 'a.b', maxAge: x => x.int(0, 99), expires: () => new Date(0), httpOnly: B, secure: B, sameSite: x => x.pick(['lax', 'Strict', true]), encode: () => encodeURIComponent })], parseCookie: c => [cookieHdr(c).join('; '), c.pick([undefined, decodeURIComponent])], parseSetCookie: c => [cookieHdr(c), opt(c, { map: B, decodeValues: B, silent: () => true })], splitSetCookie: c => [cookieHdr(c).join(', ')] },
  term: { ansiFormat: c => [opt(c, { bold: B, italic: B, underline: B, fontColor: x => x.pick(['Red', 'Blue']), fontBackground: x => x.pick(['Red', 'Green']) })], colorCode24bit: c => [Array.from({ length: 3 }, () => c.int(0, 255))], fontColor: c => [text(c), opt(c, { bold: B, underline: B })], format: c => [{ name: 'n', version: '1', type: 'I', message: text(c), ...pickSome(c, { data: big, error: () => new Error('e') }) }, opt(c, { hideName: B, hideTime: () => true })] },
  process: {}, function: { compose: c => [x => x, x => [x]], bind: c => [function (a) { return this && a; }, { a: 1 }], toPromise: c => [(...a) => a.length, [1, { a: 2 }]], executeToPromise: c => [(...a) => a.length, words(c)], tryCatch: c => [(...a) => a.length, { a: 1 }, [1]], noCatch: c => [a => a, 1], parallel: c => [Array.from({ length: c.int(0, 5) }, (_, i) => c.bool() ? () => i : async () => i), opt(c, { concurrency: x => x.int(1, 3), autoStart: () => true })], retry: c => [c.int(0, 2), () => { throw 1; }, opt(c, { delay: () => 0 })], select: c => [c.bool(), () => 1, () => 2, { x: 1 }] },
  path: { normalize: c => [c.str(0, 10, 'ab/\\.:C')] },
};
const RANDOM = new Set([]), text1 = v => inspect(v, { depth: 6, maxArrayLength: 200 }).replace(/\d{4}-\d\d-\d\d[T ]\d\d:\d\d:\d\d(\.\d+)?Z?/g, 'TIME').replace(/(\d+\/\d+\/\d+,? *)?\d{1,2}:\d\d:\d\d(\.\d+)?( ?[AP]M)?/g, 'TIME');
export default async function (ctx) {
  const list = []; for (const [pkg, fs] of Object.entries(TABLE)) { const m = Object.keys(fs).length ? load(pkg) : {}; for (const [n, g] of Object.entries(fs)) if (typeof m[n] === 'function') list.push([pkg + '.' + n, m[n], g]); }
  ctx.stat('helpers', list.length);
  await ctx.section('helpers', ctx.n(40000, 10), async (c, i) => {
    const [name, f, gen] = list[i % list.length], args = gen(c), args0 = args.slice(); c.ev([name, args]);
    const before = record(args), call = async () => { try { let r = f(...args0); if (r instanceof Promise) r = await r; return [1, r]; } catch (x) { return [0, x && x.constructor && x.constructor.name]; } };
    const show = () => `${name}(${args0.map(a => text1(a).slice(0, 200)).join(', ')})`;
    const first = (await call()); let d = same(before, record(args)); c.ok(d < 0, 'argument-modified', () => `${show()} changed its arguments (now shown), was ${text1(before.slice(Math.max(0, d - 7), d + 1)).slice(0, 300)} now ${text1(record(args).slice(Math.max(0, d - 7), d + 1)).slice(0, 300)}`);
    const keep = text1(first), second = (await call()); c.ok(text1(second) === keep, 'call-again', () => `${show()} gave ${keep.slice(0, 300)} and then ${text1(second).slice(0, 300)}`);
    c.ok(text1(first) === keep, 'result-changed', () => `${show()}: the second call changed the result of the first`); d = same(before, record(args)); c.ok(d < 0, 'argument-modified', () => `${show()} changed its arguments in the second call`);
    ctx.stat('objects recorded', before.filter(x => x === '#').length); ctx.stat(first[0] ? 'returned' : 'threw');
  });
}
