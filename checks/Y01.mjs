import { types as U, inspect } from 'node:util';
import { load } from '../lib/bundle.mjs';
import { catalogue, pretenders } from '../lib/kinds.mjs';
export const rule = 'a catalogue of some 450 values of every kind (both realms, subclasses, boxed, sparse, boundary numbers) labelled by construction, run through every exported predicate in random order with all extra arguments; non-trivial: distinct (predicate, value)';
export const assumptions = ['values that have no conversion to a number are left open for isNumberValid with allowNaN', 'values that fake a toStringTag or duck-type a Buffer are only checked for a boolean answer without exception', 'typed element predicates of arrays with holes are left open (holes are skipped, as every() does)', 'browser-only kinds (DOM nodes, windows) have no members in Node.js', 'no revoked proxies and no throwing getters'];
const O = v => typeof v === 'object' && v !== null, F = v => typeof v === 'function', N = v => typeof v === 'number', int = v => N(v) && Number.isFinite(v) && Math.trunc(v) === v, between = (v, a, b) => int(v) && v >= a && v <= b, arr = v => Array.isArray(v), fl = v => N(v) && Number.isFinite(v) && Math.trunc(v) !== v;
const str = v => typeof v === 'string' || U.isStringObject(v), num = (v, nan) => { if (U.isNumberObject(v)) v = Number.prototype.valueOf.call(v); else if (!N(v)) return false; return nan || v === v; }, boo = v => typeof v === 'boolean' || U.isBooleanObject(v), big = v => typeof v === 'bigint' || U.isBigIntObject(v), sym = v => typeof v === 'symbol' || U.isSymbolObject(v);
const els = f => v => arr(v) && v.length > 0 && Array.from(v).every(x => f(x));
const tag = v => Object.prototype.toString.call(v), obj = v => tag(v) === '[object Object]', ta = n => v => Object.getOwnPropertyDescriptor(Object.getPrototypeOf(Uint8Array.prototype), Symbol.toStringTag).get.call(v) === n && !Buffer.isBuffer(v);
const brand = (proto, m) => v => { try { proto[m].call(v); return true; } catch { return false; } };
const get = (v, k) => v === null || v === undefined ? undefined : v[k];
const keys = [Object.keys, Object.getOwnPropertyNames, Object.getOwnPropertySymbols, Reflect.ownKeys];
const len = v => between(get(v, 'length'), 0, 2 ** 53 - 1), siz = v => between(get(v, 'size'), 0, 2 ** 53 - 1);
const pow = (b, e, m) => { let r = 1n; for (b %= m; e; e >>= 1n) { if (e & 1n) r = r * b % m; b = b * b % m; } return r; };
const prime = v => { if (!int(v) || v < 2) return false; const n = BigInt(v); for (const p of [2n, 3n, 5n, 7n, 11n, 13n, 17n, 19n, 23n, 29n, 31n, 37n]) { if (n === p) return true; if (n % p === 0n) return false; } let d = n - 1n, s = 0; while (!(d & 1n)) { d >>= 1n; s++; } next: for (const a of [2n, 3n, 5n, 7n, 11n, 13n, 17n, 19n, 23n, 29n, 31n, 37n]) { let x = pow(a, d, n); if (x === 1n || x === n - 1n) continue; for (let i = 1; i < s; i++) { x = x * x % n; if (x === n - 1n) continue next; } return false; } return true; };
const RESERVED = new Set('break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with'.split(' '));
const ident = s => { if (typeof s !== 'string') return false; const d = s.replace(/\\u(?:([\da-fA-F]{4})|\{([\da-fA-F]+)\})/g, (_, a, b) => { const n = parseInt(a || b, 16); return n > 0x10ffff ? '\\' : String.fromCodePoint(n); }); return /^[\p{ID_Start}$_][\p{ID_Continue}$\u200c\u200d]*$/u.test(d) && !RESERVED.has(d); };
const idx = v => between(v, 0, 4294967295);
const like = (v, level = 0, sparse = true) => { if (!O(v) || arr(v) || !idx(v.length)) return false; if (level === 0) return true; const ks = Object.keys(v), own = ks.filter(k => /^(0|[1-9]\d*)$/.test(k) && Number(k) <= 4294967295); if (own.length !== v.length) return false; if (!sparse && !own.every(k => Number(k) < own.length)) return false; return level === 1 || ks.length === v.length + 1; };
const desc = (v, extra = true) => { if (!obj(v)) return false; const own = k => Object.prototype.hasOwnProperty.call(v, k); if (!['value', 'get', 'set'].some(own)) return false; try { Object.defineProperty({}, 'x', v); } catch { return false; } return ['configurable', 'enumerable', 'writable'].every(k => !Object.keys(v).includes(k) || boo(v[k])) && (extra || Object.keys(v).every(k => ['configurable', 'enumerable', 'writable', 'get', 'set', 'value'].includes(k))); };
const nvalid = (v, o = {}) => { const { implicit = true, allowNaN = false, allowInfinity = false, allowEmptyString = false } = o; let n; try { n = Number(v); } catch { return false; } if (implicit ? v === undefined : !(num(v, allowNaN) || (str(v) && (allowEmptyString || String(v).trim() !== '')))) return false; return (allowNaN || n === n) && (allowInfinity || Math.abs(n) !== Infinity); };
const L = (...ls) => (v, k) => ls.some(l => k.has(l)), no = () => false;
const convertible = v => { try { Number(v); return true; } catch { return false; } };
const asy = (v, k) => U.isAsyncFunction(v) || !!k?.has('async');
const errs = Object.fromEntries(['Error', 'TypeError', 'RangeError', 'SyntaxError', 'ReferenceError', 'EvalError', 'URIError', 'AggregateError'].map(n => ['is' + n, L('e:' + n)]));
export const ORACLE = {
  isArray: arr, isArrayFilled: v => arr(v) && v.length > 0, isArrayIndex: idx, isArrayLike: v => like(v), isArrayLikeFilled: v => like(v) && v.length > 0, isArraySparse: v => arr(v) && Reflect.ownKeys(v).filter(k => typeof k === 'string' && /^(0|[1-9]\d*)$/.test(k)).length < v.length, isArrayTwoDimensional: els(arr),
  isBigInt: big, isBigIntArray: els(big), isBigIntFilled: v => big(v) && BigInt.prototype.valueOf.call(v) > 0n, isBigIntObject: U.isBigIntObject, isBigIntPrimitive: v => typeof v === 'bigint',
  isBoolean: boo, isBooleanArray: els(boo), isBooleanObject: U.isBooleanObject, isBooleanPrimitive: v => typeof v === 'boolean', isFalse: v => v === false, isTrue: v => v === true,
  isArrayBuffer: U.isArrayBuffer, isSharedArrayBuffer: U.isSharedArrayBuffer, isDataView: U.isDataView, isTypedArray: v => U.isTypedArray(v) && !Buffer.isBuffer(v), isArrayBufferView: v => ArrayBuffer.isView(v) && !Buffer.isBuffer(v), isBuffer: v => Buffer.isBuffer(v), isBufferArray: els(v => Buffer.isBuffer(v)), isBufferFilled: v => Buffer.isBuffer(v) && v.length > 0,
  ...Object.fromEntries(['Int8', 'Uint8', 'Uint8Clamped', 'Int16', 'Uint16', 'Int32', 'Uint32', 'Float32', 'Float64', 'BigInt64', 'BigUint64'].map(n => [`is${n}Array`, ta(n + 'Array')])),
  isMap: U.isMap, isMapFilled: v => U.isMap(v) && v.size > 0, isSet: U.isSet, isSetFilled: v => U.isSet(v) && v.size > 0, isWeakMap: U.isWeakMap, isWeakSet: U.isWeakSet, isWeakRef: brand(WeakRef.prototype, 'deref'),
  isDate: U.isDate, isLeapYear: v => between(v, 1, 2 ** 53 - 1) && (BigInt(v) % 400n === 0n || (v % 4 === 0 && BigInt(v) % 100n !== 0n)), isDateValid: v => { if (v === undefined) return false; try { const t = new Date(v).getTime(); return t === t; } catch { return false; } },
  isDocument: no, isElement: no, isHTMLElement: no, isNodeList: no, isTextNode: no, isWindow: no, isFileReader: no, isFileList: no, isReactElement: L('react'),
  ...errs, isAnyError: L('err'), isDOMException: L('dom'), isErrorLike: v => O(v) && str(v.name) && v.name.length > 0 && str(v.message) && str(v.stack) && v.stack.length > 0,
  isEvent: L('event'), isBlob: L('blob'), isFile: L('file'), isFormData: L('form'), isURL: L('url'), isURLSearchParams: L('usp'), isURLString: v => str(v) && URL.canParse(String(v)),
  isFunction: F, isFunctionArray: els(F), isFunctionFilled: v => F(v) && v.length > 0, isAsyncFunction: asy, isAsyncFunctionFilled: (v, k) => asy(v, k) && v.length > 0, isSyncFunction: (v, k) => F(v) && !asy(v, k), isSyncFunctionFilled: (v, k) => F(v) && !asy(v, k) && v.length > 0, isFunctionBound: L('bound'), isNativeFunction: L('native'), isClass: L('class'), isArguments: U.isArgumentsObject,
  isSyncGenerator: L('gen'), isAsyncGenerator: L('agen'), isGenerator: U.isGeneratorObject, isSyncGeneratorFunction: L('genfn'), isAsyncGeneratorFunction: L('agenfn'), isGeneratorFunction: U.isGeneratorFunction,
  isSyncIterable: v => F(get(v, Symbol.iterator)), isAsyncIterable: v => F(get(v, Symbol.asyncIterator)), isIterable: v => F(get(v, Symbol.iterator)) || F(get(v, Symbol.asyncIterator)), isIterator: v => F(get(v, 'next')),
  isNull: v => v === null, isNullArray: els(v => v === null), isUndefined: v => v === undefined, isUndefinedArray: els(v => v === undefined), isNullOrUndefined: v => v === null || v === undefined, isNullOrUndefinedArray: els(v => v === null || v === undefined),
  isFinite: v => N(v) && v - v === 0, isNaN: v => v !== v, isInfinity: v => v === 1 / 0 || v === -1 / 0, isInfinityPositive: v => v === 1 / 0, isInfinityNegative: v => v === -1 / 0, isZero: v => v === 0,
  isNumber: v => num(v), isNumberArray: els(v => num(v)), isNumberObject: v => U.isNumberObject(v) && num(v), isNumberPrimitive: v => N(v) && v === v, isNumberFilled: v => N(v) && v - v === 0 && v !== 0, isNumberNegative: v => N(v) && v < 0 && v > -1 / 0, isNumberPositive: v => N(v) && v > 0 && v < 1 / 0, isNumberSafe: v => N(v) && v - v === 0, isNumberValid: v => nvalid(v), isPrimeNumber: prime,
  isInt: int, isIntEven: v => int(v) && BigInt(v) % 2n === 0n, isIntOdd: v => int(v) && BigInt(v) % 2n !== 0n, isIntSafe: v => between(v, -(2 ** 53 - 1), 2 ** 53 - 1), isInt8: v => between(v, -(2 ** 7), 2 ** 7 - 1), isInt16: v => between(v, -(2 ** 15), 2 ** 15 - 1), isInt32: v => between(v, -(2 ** 31), 2 ** 31 - 1), isUint: v => int(v) && v >= 0, isUintFilled: v => int(v) && v > 0, isUint8: v => between(v, 0, 2 ** 8 - 1), isUint16: v => between(v, 0, 2 ** 16 - 1), isUint32: v => between(v, 0, 2 ** 32 - 1), isUintSafe: v => between(v, 0, 2 ** 53 - 1), isUintSafeFilled: v => between(v, 1, 2 ** 53 - 1), isTimeoutMs: v => between(v, 0, 2 ** 31 - 1),
  isFloat: fl, isUFloat: v => fl(v) && v > 0, isFloat16: v => fl(v) && Math.abs(v) <= 65504, isFloat32: v => fl(v) && Math.abs(v) <= (2 - 2 ** -23) * 2 ** 127, isFloat64: fl, isFloat16SafeInt: v => between(v, -(2 ** 11 - 1), 2 ** 11 - 1), isFloat32SafeInt: v => between(v, -(2 ** 24 - 1), 2 ** 24 - 1), isFloat64SafeInt: v => between(v, -(2 ** 53 - 1), 2 ** 53 - 1),
  isObject: obj, isObjectArray: els(obj), isObjectFilled: v => obj(v) && Object.keys(v).length > 0, isPlainObject: v => obj(v) && Object.getPrototypeOf(v) === Object.prototype, isPlainObjectFilled: v => obj(v) && Object.getPrototypeOf(v) === Object.prototype && Object.keys(v).length > 0, isPureObject: v => obj(v) && Object.getPrototypeOf(v) === null && !(Symbol.iterator in v) && !(Symbol.toStringTag in v), isTypeofObject: O, isTypeofObjectArray: els(O),
  isFalsy: v => v === undefined || v === null || v === false || v === '' || v === 0 || v === 0n || v !== v, isTruthy: v => !ORACLE.isFalsy(v), isFalsyArray: els(v => ORACLE.isFalsy(v)), isTruthyArray: els(v => !ORACLE.isFalsy(v)), isPrimitive: v => Object(v) !== v,
  isPromise: U.isPromise, isPromiseLike: v => (O(v) || F(v)) && F(v.then), isLengthy: len, isLengthyFilled: v => len(v) && v.length > 0, isSizey: siz, isSizeyFilled: v => siz(v) && v.size > 0, isPropertyDescriptor: v => desc(v), isPropertyKey: v => str(v) || num(v, true) || sym(v),
  isRegExp: U.isRegExp, isStream: L('stream'), isReadable: L('readable'), isWritable: L('writable'), isDuplex: (v, k) => k.has('readable') && k.has('writable'), isTransform: L('transform'),
  isString: str, isStringArray: els(str), isStringFilled: v => str(v) && v.length > 0, isStringObject: U.isStringObject, isStringPrimitive: v => typeof v === 'string', isStringTrim: v => str(v) && /\S/.test(String(v)), isChar: v => str(v) && v.length === 1, isSymbol: sym, isSymbolArray: els(sym), isSymbolObject: U.isSymbolObject, isSymbolPrimitive: v => typeof v === 'symbol', isVarName: ident,
};
const TYPED_ELEMENTS = /^is(?!Sparse)\w*Array$|TwoDimensional/;
const OPEN = { isPureObject: k => k.has('realm') && false, isPlainObject: k => k.has('realm'), isPlainObjectFilled: k => k.has('realm'), isStream: k => k.has('realm') };
// with further arguments
export const MORE = {
  isArrayLike: c => { const a = [c.int(0, 2), c.bool()]; return [a, v => like(v, ...a)]; }, isObjectFilled: c => { const l = c.int(0, 3); return [[l], v => obj(v) && keys[l](v).length > 0]; }, isPlainObjectFilled: c => { const l = c.int(0, 3); return [[l], v => obj(v) && Object.getPrototypeOf(v) === Object.prototype && keys[l](v).length > 0]; },
  isNumber: c => { const a = c.bool(); return [[a], v => num(v, a)]; }, isNumberArray: c => { const a = c.bool(); return [[a], els(v => num(v, a))]; }, isNumberObject: c => { const a = c.bool(); return [[a], v => U.isNumberObject(v) && num(v, a)]; }, isNumberPrimitive: c => { const a = c.bool(); return [[a], v => N(v) && (a || v === v)]; },
  isNumberValid: c => { const o = {}; for (const k of ['implicit', 'allowNaN', 'allowInfinity', 'allowEmptyString']) if (c.bool()) o[k] = c.bool(); return [[o], v => nvalid(v, o)]; },
  isNaN: c => { const a = c.bool(); return [[a], v => { if (!a) return v !== v; try { return globalThis.isNaN(v); } catch { return false; } }]; }, isFinite: c => { const a = c.bool(); return [[a], v => { if (!a) return N(v) && v - v === 0; try { return globalThis.isFinite(v); } catch { return false; } }]; },
  isStringTrim: c => { const n = c.int(0, 3); return [[n], v => str(v) && String(v).trim().length > n]; }, isPropertyDescriptor: c => { const a = c.bool(); return [[a], v => desc(v, a)]; },
  isDOMException: c => { const n = c.pick([undefined, '', 'AbortError', 'Error', 'x']); return [[n], (v, k) => k.has('dom') && (!n || v.name === n)]; }, isSameError: c => { const a = [c.pick(['Error', 'TypeError', 'Other', 'x']), c.pick(['m', '', 'y', ' m ', 'm '])]; return [a, (v, k) => k.has('err') && v.name === a[0] && v.message === a[1]]; },
  isProperty: c => { const key = c.pick(['a', 'length', 'toString', Symbol.iterator, 0, '1', 'x', 'name', '', '__proto__']); return [[key], v => Object(v) === v && Reflect.has(v, key)]; }, hasOwnProperty: c => { const key = c.pick(['a', 'length', 'toString', Symbol.iterator, 0, '1', 'x', 'name', '']); return [[key], v => v !== null && v !== undefined && Object.getOwnPropertyDescriptor(Object(v), key) !== undefined]; },
  getTagEqual: c => { const t = c.pick(['Object', 'Array', 'Null', 'Undefined', 'Number', 'Function', 'Error', 'Map', 'x', '']); return [[t], v => Object.prototype.toString.call(v) === `[object ${t}]`]; }, typeofEqual: c => { const t = c.pick(['object', 'function', 'number', 'undefined', 'string', 'symbol', 'bigint', 'boolean', 'null']); return [[t], v => typeof v === t]; },
  isWindow: c => { const r = c.bool(); return [[() => r], () => r]; }, isDocument: c => { const r = c.bool(); return [[() => r], () => r]; },
};
const attrs = v => { if (Object(v) !== v || v === process || v === globalThis) return null; const d = Object.getOwnPropertyDescriptors(v), p = Object.getPrototypeOf(v); return [Reflect.ownKeys(v).map(k => [k, d[k]?.value, d[k]?.get, d[k]?.enumerable]), p, U.isRegExp(v) ? v.lastIndex : 0, U.isMap(v) || U.isSet(v) ? v.size : 0]; };
const sameAttrs = (a, b) => a === b || (a[1] === b[1] && a[2] === b[2] && a[3] === b[3] && a[0].length === b[0].length && a[0].every((x, i) => x.every((y, j) => Object.is(y, b[0][i][j]))));
export default async function (ctx) {
  const m = load('types'), names = Object.keys(ORACLE).filter(n => typeof m[n] === 'function'), missing = Object.keys(m).filter(n => /^is/.test(n) && !ORACLE[n] && !MORE[n] && !['isEqual', 'isNotEqual', 'isEvery', 'isSome', 'isNodejs', 'isBrowser', 'isDeno', 'isWebWorker', 'isPrototype', 'isPrototypeOf'].includes(n));
  ctx.stat('predicates', names.length); if (missing.length) ctx.notes.push('predicates without an oracle: ' + missing);
  const show = e => { try { return e.s + ' ' + inspect(e.v, { depth: 1 }).slice(0, 120); } catch { return e.s; } };
  const judge = (c, n, e, args, want) => {
    const before = attrs(e.v); let got; try { got = m[n](e.v, ...args); } catch (x) { c.fail('throws', `${n}(${show(e)}) threw ${x && x.message}`); }
    c.ok(got === want, 'verdict', () => `${n}(${show(e)}${args.length ? ', ' + inspect(args) : ''}) = ${String(got)} (${typeof got}), expected ${want}`); c.ok(sameAttrs(before, attrs(e.v)), 'modified', () => `${n} changed ${show(e)}`);
  };
  await ctx.section('catalogue', ctx.n(14, 20), async c => {
    const all = c.shuffle(catalogue(c)); c.ev(all.map(e => e.s).join());
    for (const n of c.shuffle(names)) for (const e of all) {
      if (TYPED_ELEMENTS.test(n) && (e.k.has('sparse') || (arr(e.v) && ORACLE.isArraySparse(e.v))) && n !== 'isArraySparse' || OPEN[n]?.(e.k)) continue;
      if (n === 'isPrimeNumber' && int(e.v) && e.v > 1e15 && !ctx.thorough) continue;
      if (n === 'isVarName' && typeof e.v === 'string' && e.s.startsWith('ident ') !== ident(e.v) && /^(no)?ident /.test(e.s)) c.fail('oracle', 'identifier oracle is wrong for ' + e.s);
      if (/^is(Class|SyncGenerator|AsyncGenerator|.*Error|FunctionBound|NativeFunction)$/.test(n) && e.s === 'rnd arr') continue;
      judge(c, n, e, [], !!ORACLE[n](e.v, e.k)); ctx.stat('verdicts');
    }
    for (const e of all) if (e.k.has('gen')) c.ok(e.s.startsWith('realm') || e.v.next().value === 'first', 'generator-advanced', () => 'a predicate advanced the generator');
  });
  await ctx.section('arguments', ctx.n(60, 20), async c => {
    const all = catalogue(c), ns = Object.keys(MORE).filter(n => typeof m[n] === 'function'); c.ev(c.label);
    for (const n of ns) for (let i = 0; i < 60; i++) { const e = c.pick(all), [args, f] = MORE[n](c); if (/Array$/.test(n) && (e.k.has('sparse') || ORACLE.isArraySparse(e.v)) || OPEN[n]?.(e.k) || n === 'isNumberValid' && !convertible(e.v) && args[0].allowNaN || (n === 'isNumberValid' || n === 'isSameError') && e.k.has('realm')) continue; judge(c, n, e, args, !!f(e.v, e.k)); ctx.stat('verdicts with arguments'); }
    for (let i = 0; i < 80; i++) { const e = c.pick(all), t = tag(e.v); c.eq(m.getTag(e.v), t.slice(8, -1), 'getTag', e.s); c.eq(m.getTag(e.v, false), t, 'getTag-full', e.s); }
  });
  await ctx.section('comparison', ctx.n(4000), async c => {
    const pool = [0, -0, 1, NaN, '', 'a', '0', null, undefined, true, false, 1n, Symbol.iterator, c.pick([2, 3]), {}], v = c.pick(pool), args = Array.from({ length: c.pick([0, 1, 1, 2, 3]) }, () => c.bool(0.6) ? v : c.pick(pool)), eq = (a, b) => a === b || (a !== a && b !== b); c.ev(['eq', v, args]);
    c.eq(m.isEqual(v, ...args), args.length > 0 && args.every(a => eq(v, a)), 'isEqual', [v, args]); c.eq(m.isNotEqual(v, ...args), args.length > 0 && args.every(a => !eq(v, a)), 'isNotEqual', [v, args]);
    const P = [['isNumber', x => num(x)], ['isString', str], ['isArray', arr], ['isTruthy', x => !!x], ['isFinite', x => N(x) && x - x === 0], ['isStringTrim', x => str(x) && /\S/.test(x)], ['isObjectFilled', x => obj(x) && Object.keys(x).length > 0], ['isNumberValid', x => nvalid(x)], ['isNaN', x => x !== x], ['isNumberPrimitive', x => N(x) && x === x], ['isArrayLike', x => like(x)]], ps = Array.from({ length: c.pick([1, 1, 2, 3]) }, () => c.pick(P)), vs = Array.from({ length: c.int(1, 5) }, () => c.pick([1, 2, NaN, 0, '', 'a', ' ', 'ab', {}, { a: 1 }, { length: 1 }, '5', Infinity, [], [1], ['a'], [['a']], [[]]])), one = c.bool(0.2) && !arr(vs[0]), val = one ? vs[0] : vs, list = one ? [vs[0]] : vs, pred = ps.length === 1 && c.bool() ? m[ps[0][0]] : ps.map(p => m[p[0]]), keep = inspect([val, ps]); c.ev(['every', keep]);
    c.eq(m.isEvery(val, pred), list.every(x => ps.every(p => p[1](x))), 'isEvery', [val, ps.map(p => p[0])]); c.eq(m.isSome(val, pred), list.some(x => ps.every(p => p[1](x))), 'isSome', [val, ps.map(p => p[0])]); c.eq(inspect([val, ps]), keep, 'arguments-changed');
    const seen = []; m.isSome(list, (...a) => { seen.push(a.length); return false; }); c.eq(seen, list.map(() => 1), 'isSome-calls');
  });
  await ctx.section('descriptors', ctx.n(3000), async (c, i) => {
    const d = {}, f = () => 1; for (const k of ['value', 'get', 'set', 'writable', 'enumerable', 'configurable', 'extra']) if (c.bool(k === 'value' || k === 'get' ? 0.5 : 0.3)) d[k] = k === 'value' || k === 'extra' ? c.pick([1, undefined, f, false]) : k === 'get' || k === 'set' ? c.pick([f, f, f, undefined, function () { }, class { }, null, 0, '', 1, {}]) : c.pick([true, true, false, false, 1, 0, undefined, null, '']); const v = i % 5 === 0 ? Object.assign(Object.create(null), d) : d; c.ev(inspect(d));
    judge(c, 'isPropertyDescriptor', { v, k: new Set(), s: '' }, [], desc(v)); for (const e of [true, false]) judge(c, 'isPropertyDescriptor', { v, k: new Set(), s: '' }, [e], desc(v, e));
  });
  await ctx.section('numbers', ctx.n(3000), async c => {
    const b = 2 ** c.int(0, 55), v = c.pick([c.int(-3, 20000), c.int(0, 1e9), c.pick([1, -1]) * (b + c.pick([-2, -1, -0.5, 0, 0.5, 1, 2])), c.pick([561, 1105, 1729, 2465, 25326001, 3215031751, 4759123141, 9409, 10403, 994009, 1194649, 2147483647]), c.int(1, 9999) + c.pick([0, 0, 0.5]), b * c.pick([1, 1.5, 1.25])]); c.ev(v); const e = { v, k: new Set(), s: 'n' };
    for (const n of names) if (/Int|Float|Number|Leap|Index|Timeout|Finite|NaN|Infinity|Zero/.test(n) && !/Array|Object|BigInt/.test(n) && !(n === 'isPrimeNumber' && v > 1e12)) { judge(c, n, e, [], !!ORACLE[n](v, e.k)); ctx.stat('verdicts on numbers'); }
  });
  await ctx.section('names', ctx.n(3000), async c => {
    const s = Array.from({ length: c.int(0, 4) }, () => c.pick(['a', 'Z', '_', '$', '1', 'é', '中', '𠮷', '\u200c', ' ', '\n', '=', ',', ';', '.', '-', '\\u0061', '\\u{62}', '\\u0031', '{', '}', '(', ')', '//', '/*', '*/', '`', '"', 'in', 'if', 'let', '\u2028', '\u00a0', '#', '=>', '...', ':', '\\'])).join(''); c.ev(s);
    globalThis.__ran = 0; judge(c, 'isVarName', { v: s, k: new Set(), s: JSON.stringify(s) }, [], ident(s));
  });
  await ctx.section('others', 1, async c => {
    c.ev('others'); c.eq([m.isNodejs(), m.isBrowser(), m.isDeno(), m.isWebWorker()], [true, false, false, false], 'platform');
    const all = catalogue(c); for (const e of all) { const want = e.v !== null && e.v !== undefined && (() => { const k = e.v.constructor; try { return e.v === (k.prototype || Object.prototype); } catch { return false; } })(); judge(c, 'isPrototype', e, [], want); }
    for (let i = 0; i < 4000; i++) { const a = c.pick(all), b = c.pick([c.pick(all), { v: Object(a.v) === a.v && !a.k.has('proxy') ? Object.create(a.v) : a.v }]), walk = (o, v) => { if (Object(o) !== o || Object(v) !== v) return false; for (let p = Object.getPrototypeOf(v); p !== null; p = Object.getPrototypeOf(p)) if (p === o) return true; return false; }; c.eq(m.isPrototypeOf(a.v, b.v), walk(a.v, b.v), 'isPrototypeOf', [a.s, b.s]); }
    for (const v of pretenders()) for (const n of Object.keys(ORACLE).concat('isPrototype')) if (typeof m[n] === 'function') { let r; try { r = m[n](v); } catch (x) { c.fail('throws', `${n}(pretender ${tag(v)}) threw ${x && x.message}`); } c.ok(typeof r === 'boolean', 'not-boolean', () => `${n}(pretender ${tag(v)}) returned ${inspect(r)}`); ctx.stat('pretender verdicts'); }
  });
}
