// A catalogue of JavaScript values, each with labels saying what it is by construction.
import vm from 'node:vm';
import { Readable, Writable, Duplex, Transform, PassThrough, Stream } from 'node:stream';
import { EventEmitter } from 'node:events';
const realm = vm.createContext({});
const run = s => vm.runInContext('(' + s + ')', realm);
function arguments_() { return arguments; }
export const NUMS = [0, -0, 1, -1, 2, 3, 4, 97, 7919, 0.5, -0.5, 1.5, 0.1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65504, 65504.5, 65505.5, 65535, 65536, 2047, 2048, -2048, 16777215, 16777216, 2147483647, 2147483648, -2147483648, -2147483649, 4294967294, 4294967295, 4294967296, 2 ** 53 - 1, 2 ** 53, -(2 ** 53 - 1), -(2 ** 53), 2 ** 53 + 2, 1e21, 1e300, -1e300, 5e-324, Number.MAX_VALUE, Number.MIN_VALUE, Number.EPSILON, 3.4028234663852886e38, NaN, Infinity, -Infinity, 400, 1900, 2000, 2023, 2024, 2100, 4294967295.5, 123456.789, 4295098369, 4295229443, 999999999989, 1000006000009, 8.64e15, -8.64e15, 8.64e15 + 2, -62198755200001];
export const STRS = ['', ' ', '\t\n', 'a', 'ab', 'é', '😀', '中', '\ud800', '0', '1', '-0', ' 12 ', '0x1f', '1e3', '1_000', '12px', 'NaN', 'Infinity', '-Infinity', 'true', 'null', '2020-01-01', '01 Jan 1970 00:00:00 GMT', 'http://a.b/c?d#e', 'a.b', '//a', 'mailto:x', 'file:', 'http://', 'C:\\x', 'data:,x', '\u00a0', '\u200b', 'x'.repeat(300), '\u00a0http://a.b', ' http://a.b ', 'HTTP://A.B', 'a1+b:x', 'http://a b', '0000-01-01', '-271821-04-20', '\ufeff', '\u2028x\u2029', '\u3000ab\u3000'];
export const IDENTS = ['a', '_', '$', 'a1', 'é', '中文', 'ª', '𠮷', 'a\u200c', '\\u0061', '\\u{61}b', 'let', 'static', 'yield', 'await', 'async', 'of', 'get', 'undefined', 'NaN', 'arguments', 'eval', 'fn', '__proto__', 'constructor', 'implements', 'package'];
export const NOIDENT = ['', ' a', 'a ', 'a b', '1a', 'a-b', 'a.b', 'a=1', 'a = 1', 'a,b', 'a, b', '{a}=fn', '[x]=[]', 'a;b', 'a;', ';', 'a;x()', 'a//', 'a/**/', '/**/a', 'a\n', '\na', 'a\nb', 'var', 'if', 'class', 'enum', 'null', 'true', 'this', 'new', 'in', 'typeof', 'function', 'v\\u0061r', '\\u0031', '\\u002d', '\\u{2d}', '😀', '#a', '@a', '"a"', '`a`', '(a)', 'a()', '...a', '*', '-', '\u200c', 'a\u2028b', 'a=fn(),b', 'a}', 'a){', 'a\u0000', 'super', 'import', 'export', 'default', 'a:b', 'a?b', '=>'];
class Plain { constructor() { this.x = 1; } }
class SubMap extends Map { } class SubArr extends Array { } class SubErr extends Error { } class SubType extends TypeError { } class SubDate extends Date { } class SubPromise extends Promise { } class SubU8 extends Uint8Array { } class SubStr extends String { } class SubRe extends RegExp { } class SubSet extends Set { }
const named = (f, name) => Object.defineProperty(f, 'name', { value: name, configurable: true });
/** build the catalogue afresh (values are mutable); every entry: { v, k: Set of labels, s: short text } */
export function catalogue(c) {
  const out = [], add = (s, v, ...k) => out.push({ v, k: new Set(k), s });
  for (const n of NUMS) add('num ' + (Object.is(n, -0) ? '-0' : n), n);
  for (const s of STRS) add('str ' + JSON.stringify(s.slice(0, 20)), s);
  for (const s of IDENTS) add('ident ' + s, s, 'ident'); for (const s of NOIDENT) add('noident ' + JSON.stringify(s), s);
  for (const b of [0n, 1n, -1n, 2n ** 70n, 5n, 2n ** 64n, 2n ** 63n, -(2n ** 64n), 2n ** 1100n, -(2n ** 1100n)]) add('big ' + b, b);
  add('true', true); add('false', false); add('null', null); add('undefined', undefined);
  add('symbol', Symbol('x')); add('symbol.iterator', Symbol.iterator); add('symbol.for', Symbol.for('q'));
  for (const p of [1, NaN, -0, '', 'ab', true, false, 0n, 5n, -5n, Symbol('b'), Infinity]) add('boxed ' + String(p), Object(p));
  add('new SubStr', new SubStr('ab'));
  // arrays and array-likes
  add('[]', []); add('[1]', [1]); add('[undefined]', [undefined], 'dense'); add('[null]', [null]); add('[null,undefined]', [null, undefined]); add('new Array(3)', new Array(3), 'sparse'); add('[,1]', [, 1], 'sparse'); add('[1,,3]', [1, , 3], 'sparse'); add('[1,2,]x', (() => { const a = [1, 2, 3]; delete a[2]; return a; })(), 'sparse');
  const els = [['a', 'b'], [1, 2], [NaN], [1, NaN], [NaN, 1], [0, 5, -1.5], [true, false], [1n, 2n], [Symbol(), Symbol.iterator], [() => 1, class { }], [Buffer.from('a'), Buffer.alloc(0)], [Buffer.from('a'), new Uint8Array(1)], [{}, { a: 1 }], [{}, []], [{}, null], [[], [1]], [[1], 2], [[1], { length: 1 }], [0, '', null, undefined, NaN, false, 0n], [0, 1], [1, 'a', {}, []], ['a', 1], ['a', Object('b')], [1, Object(2)], [undefined, undefined], [null, null], [/x/, new Date()], [Object.create(null)], [new Plain()], ['a', 'b', 3], [true, 'a'], [1n, 1], [Symbol(), 'a'], [() => 1, {}], [[1], 2, [3]], ['a', 1, 'a'], [1, 'a', 1], [{}, 1, {}], [null, 0, null], [true, 1, true], [Object('b'), 'a'], [[], arguments_(), []], [...Array(1500).fill(7), 'a'], [...Array(700).fill('s'), 7, ...Array(700).fill('s')], Array(1200).fill('s')];
  els.forEach((a, i) => add('elements' + i, a)); const inherited = [, 1]; Object.setPrototypeOf(inherited, Object.assign(Object.create(Array.prototype), { 0: 5 })); add('hole over an inherited element', inherited, 'sparse'); const long = Array(3000).fill(1); delete long[2500]; add('long with a hole', long, 'sparse'); add('SubArr', SubArr.from([1, 2])); add('array with extra', Object.assign([1, 2], { x: 1, '-1': 2 })); add('array proxy', new Proxy([1, 2], {}), 'proxy');
  add('arguments', (function () { return arguments; })(1, 2)); add('arguments empty', (function () { return arguments; })()); add('strict arguments', (function () { 'use strict'; return arguments; })('x'));
  for (const [s, o] of Object.entries({ len3: { length: 3 }, len0: { length: 0 }, full: { 0: 'a', 1: 'b', length: 2 }, extra: { 0: 'a', 1: 'b', length: 2, x: 1 }, gap: { 0: 'a', 2: 'b', length: 2 }, far: { 0: 1, 9: 2, length: 2 }, empty: { '': 'x', length: 1 }, zero: { '01': 'x', length: 1 }, exp: { '1e0': 'x', length: 1 }, hex: { '0x0': 'x', length: 1 }, space: { ' ': 1, length: 1 }, frac: { '0.5': 1, length: 1 }, big: { 4294967296: 1, length: 1 }, neg: { '-1': 1, length: 1 }, lenStr: { length: '2', 0: 1, 1: 2 }, lenNeg: { length: -1 }, lenFrac: { length: 1.5 }, lenMax: { length: 4294967295 }, lenOver: { length: 4294967296 }, lenNaN: { length: NaN }, size: { size: 4 }, size0: { size: 0 }, sizeStr: { size: '1' }, sizeNeg: { size: -1 }, both: { length: 1, size: 1, 0: 0 } })) add('like ' + s, o);
  const re = /regexp/; re.length = 1; re[0] = 'a'; add('regexp like', re);
  // plain-ish objects
  add('{}', {}); add('{a}', { a: 1 }); add('{constructor}', { constructor: 1 }); add('{hidden}', Object.defineProperty({}, 'h', { value: 1 })); add('{symbol}', { [Symbol('k')]: 1 }); add('{hidden symbol}', Object.defineProperty({}, Symbol('k'), { value: 1 }));
  add('null proto', Object.create(null)); add('null proto keys', Object.assign(Object.create(null), { a: 1, constructor: 2, toString: 3 })); add('null proto iterator undefined', Object.assign(Object.create(null), { [Symbol.iterator]: undefined })); add('tagged Int8ArrayLike', { [Symbol.toStringTag]: 'Int8ArrayLike' }); add('tagged XMap', { [Symbol.toStringTag]: 'XMap' }); add('tagged Dates', { [Symbol.toStringTag]: 'Dates' }); add('null proto iterator', Object.assign(Object.create(null), { [Symbol.iterator]() { } })); add('inherits {}', Object.create({})); add('inherits {a}', Object.create({ a: 1 })); add('inherits null proto', Object.create(Object.create(null)));
  add('new Plain', new Plain()); add('Object.prototype', Object.prototype, 'prototype'); add('Plain.prototype', Plain.prototype, 'prototype'); add('Array.prototype', Array.prototype, 'prototype'); add('proxy {}', new Proxy({ a: 1 }, {}), 'proxy'); add('frozen', Object.freeze({ a: 1 })); add('Math', Math); add('JSON', JSON); add('globalThis', globalThis); add('Reflect', Reflect); add('Atomics', Atomics); add('Intl', Intl);
  add('{then}', { then() { } }); add('{then:1}', { then: 1 }); add('{next}', { next() { return { done: true }; } }); add('{iterator}', { [Symbol.iterator]() { return [].values(); } }); add('{iterator:1}', { [Symbol.iterator]: 1 }); add('{asyncIterator}', { [Symbol.asyncIterator]() { } }); add('fn.iterator', Object.assign(() => 1, { [Symbol.iterator]() { } }), 'sync'); add('fn.asyncIterator', Object.assign(() => 1, { [Symbol.asyncIterator]() { } }), 'sync'); add('fn.next', Object.assign(() => 1, { next() { } }), 'sync'); add('{asyncIterator:1}', { [Symbol.asyncIterator]: 1 }); add('{next:1}', { next: 1 }); add('fn.then', Object.assign(() => 1, { then() { } })); add('{append}', { append() { } }); add('react', { $$typeof: Symbol.for('react.element') }, 'react'); add('react number', { $$typeof: 60103 });
  add('{valueOf}', { valueOf: () => 42 }); add('{toString}', { toString: () => '3.5' }); add('{isBuffer}', { constructor: Buffer });
  // collections, dates, regexps, promises
  add('Map', new Map(), 'map'); add('Map1', new Map([[1, 2]]), 'map'); add('SubMap', new SubMap([[1, 2]])); add('Set', new Set()); add('Set1', new Set([1])); add('SubSet', new SubSet([1, 2])); add('WeakMap', new WeakMap()); add('WeakSet', new WeakSet()); add('WeakRef', new WeakRef({}), 'weakref'); add('FinalizationRegistry', new FinalizationRegistry(() => { }));
  add('Date', new Date(0)); add('Date far', new Date(8.64e15)); add('Date BC', new Date(-8.64e15)); add('Date year -1', new Date(-62198755200001)); add('Date invalid', new Date(NaN)); add('SubDate', new SubDate()); add('RegExp', /a/g); add('SubRe', new SubRe('a')); const used = /a/g; used.lastIndex = 1; add('RegExp lastIndex', used);
  const pr = Promise.resolve(1); add('Promise', pr); add('SubPromise', SubPromise.resolve(1)); const rej = Promise.reject(new Error('x')); rej.catch(() => { }); add('rejected', rej);
  // buffers
  for (const T of [Int8Array, Uint8Array, Uint8ClampedArray, Int16Array, Uint16Array, Int32Array, Uint32Array, Float32Array, Float64Array, BigInt64Array, BigUint64Array]) { add(T.name, new T(2), 'typed'); add(T.name + ' empty', new T(0), 'typed'); }
  add('SubU8', new SubU8(3)); add('Buffer', Buffer.from('abc')); add('Buffer empty', Buffer.alloc(0)); add('Buffer slice', Buffer.from('abc').subarray(1)); add('ArrayBuffer', new ArrayBuffer(4)); add('SharedArrayBuffer', new SharedArrayBuffer(4)); add('DataView', new DataView(new ArrayBuffer(4)));
  // errors: e:NAME says which predicate of the family it belongs to
  for (const E of [Error, TypeError, RangeError, SyntaxError, ReferenceError, EvalError, URIError]) { add(E.name, new E('m'), 'err', 'e:' + E.name); add(E.name + ' renamed', Object.assign(new E('m'), { name: 'Other' }), 'err', 'e:' + E.name); }
  add('AggregateError', new AggregateError([1], 'm'), 'err', 'e:AggregateError'); add('SubErr', new SubErr('m'), 'err', 'e:Error'); add('SubType', new SubType('m'), 'err', 'e:TypeError'); add('error no proto', Object.setPrototypeOf(new Error('m'), null), 'err'); add('error stackless', Object.assign(new Error(''), { stack: '' }), 'err', 'e:Error'); add('DOMException', new DOMException('m', 'AbortError'), 'err', 'dom'); add('DOMException plain', new DOMException('m'), 'err', 'dom'); add('error like', { name: 'E', message: '', stack: 's' }); add('error like 2', { name: '', message: 'm', stack: 's' }); add('error padded', new Error(' m '), 'err', 'e:Error'); add('error like 3', { name: 'E', message: 'm' });
  // functions
  add('function', function () { }, 'sync'); add('function 2', function (a, b) { }, 'sync'); add('arrow', () => 1, 'sync'); add('arrow 1', a => a, 'sync'); add('rest', (...a) => a, 'sync'); add('default', (a = 1) => a, 'sync'); add('async', async () => 1, 'async'); add('async 1', async function (a) { }, 'async'); add('method', { m() { } }.m, 'sync'); add('getter', Object.getOwnPropertyDescriptor({ get x() { return 1; } }, 'x').get, 'sync'); add('method class', { class() { } }.class, 'sync'); add('method class 2', (0, eval)('({ class () {} }).class'), 'sync'); add('classy', (0, eval)('classy => classy'), 'sync'); add('class$', (0, eval)('class$ => 1'), 'sync'); add('classé', (0, eval)('classé => 1'), 'sync');
  for (const s of ['class A {}', 'class{}', 'class {}', 'class A{ constructor(a) {} }', 'class extends Array {}', 'class\nB\n{}', 'class/**/C{}', 'class extends(Array){}', 'class\t{}']) add('class ' + s, (0, eval)('(' + s + ')'), 'class', 'sync');
  add('class with static name', class { static name = 5; }, 'class', 'sync'); add('class with static name()', class { static name() { } }, 'class', 'sync'); add('symbol name', named(function () { }, Symbol('q')), 'sync'); add('odd name (', named(function () { }, '('), 'sync'); add('odd name .*', named(function () { }, '.*'), 'sync'); add('odd name [', named(function () { }, '['), 'sync'); add('odd name $', named(() => 1, '$'), 'sync'); add('named bound', named(function () { }, 'bound x'), 'sync'); add('named bound arrow', named(() => 1, 'bound x'), 'sync'); add('proxy named bound', new Proxy(named(function () { }, 'bound x'), {}), 'sync'); add('proxy boundary', new Proxy(named(() => 1, 'boundary'), {}), 'sync'); add('says native', Object.assign(function f() { }, { toString: () => 'function f() { [native code] }' }), 'sync'); add('says class', Object.assign(function f() { }, { toString: () => 'class A {}' }), 'sync'); add('class that says function', class { static toString() { return 'function () {}'; } }, 'class', 'sync'); add('text of native', function toString() { '[native code]'; }, 'sync');
  add('generator fn', function* () { }, 'genfn', 'sync'); add('generator fn 1', function* (a) { }, 'genfn', 'sync'); add('async generator fn', async function* () { }, 'agenfn', 'async'); add('generator', (function* () { yield 'first'; })(), 'gen'); add('async generator', (async function* () { yield 'first'; })(), 'agen');
  add('bound', function f() { }.bind(null), 'bound', 'sync'); add('bound arrow', (() => 1).bind(null), 'bound', 'sync'); add('bound native', Math.max.bind(null), 'bound', 'sync'); add('bound class', class Q { }.bind(null), 'bound', 'sync'); add('bound async', (async a => a).bind(null), 'bound', 'async'); add('bound twice', function f() { }.bind().bind(), 'bound', 'sync');
  for (const f of [Math.max, Object, Object.prototype.toString, Array.prototype[Symbol.iterator], RegExp.prototype[Symbol.match], Object.getOwnPropertyDescriptor(Map.prototype, 'size').get, Map, Promise, parseInt, Symbol.prototype[Symbol.toPrimitive], String.prototype.at, eval, JSON.parse, Object.getOwnPropertyDescriptor(RegExp, '$&')?.get, Function.prototype].filter(Boolean)) add('native ' + String(f.name), f, 'native', 'sync');
  for (const it of [[1].values(), new Map([[1, 1]]).entries(), 'ab'[Symbol.iterator](), 'ab'.matchAll(/a/g)]) add('iterator ' + it[Symbol.toStringTag], it);
  // web and node classes
  add('URL', new URL('http://a/'), 'url'); add('URLSearchParams', new URLSearchParams('a=1'), 'usp'); add('FormData', new FormData(), 'form'); add('Blob', new Blob(['x']), 'blob'); add('File', new File(['x'], 'n'), 'file'); add('Event', new Event('x'), 'event'); add('EventTarget', new EventTarget()); add('CustomEvent', new CustomEvent('x'), 'event'); add('Headers', new Headers()); add('AbortController', new AbortController()); add('TextEncoder', new TextEncoder()); add('EventEmitter', new EventEmitter()); add('ReadableStream', new ReadableStream()); add('process', process);
  const nop = { read() { } }, w = { write(a, b, d) { d(); } }, t = { transform(a, b, d) { d(); } };
  add('Stream', new Stream(), 'stream'); add('Readable', new Readable(nop), 'stream', 'readable'); add('Writable', new Writable(w), 'stream', 'writable'); add('Duplex', new Duplex({ ...nop, ...w }), 'stream', 'readable', 'writable'); add('Transform', new Transform(t), 'stream', 'readable', 'writable', 'transform'); add('PassThrough', new PassThrough({ objectMode: true }), 'stream', 'readable', 'writable', 'transform');
  const dead = new Readable(nop); dead.on('error', () => { }); dead.destroy(); const shut = new Readable({ ...nop, autoDestroy: false }); shut.readable = false; add('Readable not readable', shut, 'stream'); add('Readable destroyed', dead, 'stream'); const done = new Writable(w); done.end(); add('Writable ended', done, 'stream'); add('stream like', { pipe() { }, _read() { }, _readableState: {}, readable: true });
  // other realm
  for (const s of ['[]', '[1]', '{}', '{a: 1}', 'Object.create(null)', '/x/', 'new Date(0)', 'new Map([[1,1]])', 'new Set()', 'new WeakMap()', 'Promise.resolve(1)', 'function () {}', 'async () => 1', 'new Uint8Array(2)', 'new ArrayBuffer(2)', 'new DataView(new ArrayBuffer(2))', 'new String("a")', 'new Number(1)', 'new Boolean(false)', 'Object(1n)', 'Object(Symbol())', '(function () { return arguments })(1)', '[["a"], ["b"]]', '["a", "b"]', 'new Array(2)', 'Symbol.iterator']) add('realm ' + s, run(s), 'realm', ...(s === 'new Array(2)' ? ['sparse'] : []), ...(s === 'function () {}' ? ['sync'] : []), ...(s.startsWith('async') ? ['async'] : []));
  add('realm class', run('class X {}'), 'realm', 'class', 'sync'); add('realm generator', run('(function* () {})()'), 'realm', 'gen'); add('realm generator fn', run('function* () {}'), 'realm', 'genfn', 'sync'); add('realm async gen', run('(async function* () {})()'), 'realm', 'agen'); add('realm bound', run('(function () {}).bind()'), 'realm', 'bound', 'sync'); add('realm native', run('Math.min'), 'realm', 'native', 'sync'); add('realm weakref', run('new WeakRef({})'), 'realm', 'weakref');
  for (const n of ['Error', 'TypeError', 'RangeError', 'SyntaxError', 'ReferenceError', 'EvalError', 'URIError']) add('realm ' + n, run(`new ${n}('m')`), 'realm', 'err', 'e:' + n);
  // random numbers and strings for boundary coverage
  for (let i = 0; i < 12; i++) { const b = c.pick([2 ** 7, 2 ** 8, 2 ** 15, 2 ** 16, 2 ** 31, 2 ** 32, 2 ** 53, 65504, 2048, 100, 1e6]); add('rnd', c.pick([1, -1]) * (b + c.pick([-2, -1, 0, 1, 2, 0.5, -0.5]))); add('rnd int', c.int(-1e6, 1e6)); add('rnd year', c.int(1, 4000)); }
  for (let i = 0; i < 6; i++) { add('rnd str', c.str(0, 6, 'ab 01-.$_\n')); add('rnd arr', Array.from({ length: c.int(1, 4) }, () => c.pick(out).v)); }
  return out;
}
/** values that pretend: only the absence of exceptions and the type of the answer are checked */
export function pretenders() {
  const tag = t => ({ [Symbol.toStringTag]: t }), out = [];
  for (const t of ['Map', 'Set', 'Date', 'Error', 'Promise', 'Object', 'Array', 'Function', 'AsyncFunction', 'RegExp', 'Boolean', 'Symbol', 'Uint8Array', 'Generator', 'Window', 'URL', 'DOMException', 'Null', 'Undefined', '', ']', 'a]b', 'constructor', '__proto__', 'FormData', 'Arguments']) { out.push(tag(t), Object.assign(() => 1, tag(t))); if (t !== 'Number') out.push(Object.assign(Object.create(null), tag(t))); }
  out.push(tag('Number'), { constructor: { isBuffer: () => 1 } }, { constructor: { isBuffer: () => 0 }, readFloatLE: 1 }, { constructor: null }, { constructor: undefined }, Object.defineProperty(() => 1, 'length', { value: 'x' }), new Proxy(function () { }, {}), new Proxy(class { }, {}), new Proxy([], {}), { get: 1 }, { set: 1 }, { length: 1, 0: 1, get x() { return 1; } });
  return out;
}
