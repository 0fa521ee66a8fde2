// Generator of JavaScript value graphs and an isomorphism oracle for them.
const TA = ['Int8Array', 'Uint8Array', 'Uint8ClampedArray', 'Int16Array', 'Uint16Array', 'Int32Array', 'Uint32Array', 'Float32Array', 'Float64Array', 'BigInt64Array', 'BigUint64Array'];
export const typedArrayNames = TA;
export const primGen = c => c.weighted([
  [3, () => c.pick([0, -0, 1, -1, 2 ** 31, 2 ** 32, 2 ** 53, -(2 ** 53) - 2, 1e21, 1e-7, 5e-324, 1.7976931348623157e308, NaN, Infinity, -Infinity, 0.1 + 0.2])],
  [3, () => c.str(0, 8, ['a', 'b', '"', "'", '\\', '\n', '\r', '\u2028', '\u2029', '`', '$', '{', '}', '\u0000', '\ud800', '\udc00', '😀', '中', ']', ',', '/', '*', '<', 'é'])],
  [2, () => c.bool()], [1, () => null], [1, () => undefined], [1, () => BigInt(c.int(-1e9, 1e9)) * 10n ** BigInt(c.int(0, 20))], [1, () => c.int(-1000, 1000)],
])();
export const keyGen = c => c.weighted([[6, () => c.str(1, 3, 'abxyz')], [1, () => String(c.int(0, 20))], [1, () => c.pick(['', '-1', '01', '1.5', ' ', '"', "'", '\\', '\n', '\u2028', '中', '😀', '\ud800', 'e\u0301', '\u212b', 'a-b', 'a.b', '[', ']'])],
  [1, () => c.pick(['constructor', 'length', 'hasOwnProperty', 'prototype', 'name', 'valueOf', 'then', 'caller', 'message'])]])();
export const REGS = () => [/a/, /a/g, /[/\]]+\/x/giu, new RegExp(''), new RegExp('\n/'), /\u{1f600}/u, /(?<n>a)|b/ys, /^$/dm, new RegExp('\u2028'), new RegExp('[/]\\\\')];
/** build a graph; opts: kinds (list), cycles, share, attrs */
export function graphGen(c, opts) {
  const kinds = opts.kinds, pool = [];
  let budget = c.weighted([[3, c.int(1, 6)], [4, c.int(5, 25)], [1, c.int(40, 120)]]);
  const def = (o, k, v) => Object.defineProperty(o, k, { value: v, enumerable: true, writable: true, configurable: true });
  function make(depth) {
    if (pool.length && c.bool(opts.share ?? 0.15)) { const p = c.pick(pool); if (opts.cycles || p.done) return p.v; }
    if (budget-- <= 0 || depth > 7 || c.bool(0.3)) return primGen(c);
    const kind = c.pick(kinds), e = { v: undefined, done: false };
    const reg = v => { e.v = v; pool.push(e); return v; };
    const out = build(kind, depth, reg);
    e.done = true;
    return out;
  }
  const bytes = n => Uint8Array.from({ length: n }, () => c.int(0, 255));
  function fill(o, depth, max) {
    for (let i = 0, n = depth ? c.int(0, max) : c.int(1, max); i < n; i++) {
      const k = c.bool(opts.symbolKeys ?? 0) ? c.pick([Symbol.for('reg'), opts.localSym, Symbol.iterator && Symbol.for('x y'), Symbol.for('')].filter(Boolean)) : c.bool(0.02) && opts.protoKey ? '__proto__' : keyGen(c);
      if (opts.skipKeys && opts.skipKeys.includes(k)) continue;
      if (Object.getOwnPropertyDescriptor(o, k)) continue;
      const v = make(depth + 1);
      if (opts.attrs && c.bool(0.08)) Object.defineProperty(o, k, { value: v, enumerable: c.bool(), writable: c.bool(), configurable: c.bool() }); else def(o, k, v);
    }
    return o;
  }
  const seal = o => opts.frozen && c.bool(0.12) ? c.pick([Object.freeze, Object.freeze, Object.seal, Object.preventExtensions])(o) : o;
  function build(kind, depth, reg) {
    switch (kind) {
      case 'object': return seal(fill(reg({}), depth, 5));
      case 'null-object': return seal(fill(reg(Object.create(null)), depth, 4));
      case 'array': {
        const a = reg([]), n = c.int(0, 5);
        for (let i = 0; i < n; i++) { if (opts.holes && c.bool(0.12)) a.length++; else a[i] = make(depth + 1); }
        if (opts.holes && c.bool(0.05)) { const L = c.int(48, 70); if (a.length) a.length = L; else { a.length = L; a[c.int(0, L - 1)] = make(depth + 1); } }
        if (opts.extra && c.bool(0.05)) def(a, 'x' + keyGen(c), make(depth + 1));
        return seal(a);
      }
      case 'date': return reg(new Date(c.pick([0, 1, -1, 8.64e15, -8.64e15, NaN, 1e12, -62198755200000, 951782400000, c.int(-1e9, 1e9) * 1000])));
      case 'regexp': { const r = reg(c.pick(REGS())); if (opts.lastIndex && c.bool(0.3)) r.lastIndex = c.bool(0.1) ? c.pick([255, 256, 65535, 65536, 2 ** 31, 2 ** 53 - 1]) : c.int(0, 5); return r; }
      case 'map': { const m = reg(new Map()); for (let i = 0, n = c.int(0, 4); i < n; i++) m.set(make(depth + 1), make(depth + 1)); return m; }
      case 'set': { const s = reg(new Set()); for (let i = 0, n = c.int(0, 4); i < n; i++) s.add(make(depth + 1)); return s; }
      case 'arraybuffer': return reg(bytes(c.int(0, 9)).buffer);
      case 'dataview': { const b = bytes(c.int(0, 12)).buffer, off = c.int(0, b.byteLength); return reg(new DataView(b, off, c.int(0, b.byteLength - off))); }
      case 'typed': {
        const C = globalThis[c.pick(TA)], n = c.int(0, 5), off = c.int(0, 2) * C.BYTES_PER_ELEMENT, b = new ArrayBuffer(off + n * C.BYTES_PER_ELEMENT + c.int(0, 1) * 8);
        new Uint8Array(b).set(bytes(b.byteLength));
        return reg(new C(b, off, n));
      }
      case 'buffer': { const b = Buffer.from(bytes(c.int(0, 9))); return reg(c.bool(0.3) && b.length ? b.subarray(1) : b); }
      case 'boxed': return reg(Object(c.pick([1, -0, NaN, '', 'abc', true, false, 5n, 0n, -(1n << 63n) - 1n, 1n << 64n, 7n ** 120n])));
      case 'error': { const e = reg(new (c.pick([Error, TypeError, RangeError, SyntaxError, EvalError, ReferenceError, URIError]))(c.pick(['', 'm', 'x"y']))); if (c.bool(0.3)) def(e, 'cause', make(depth + 1)); if (c.bool(0.3)) def(e, 'code', make(depth + 1)); return e; }
      default: throw new Error('kind ' + kind);
    }
  }
  const conts = kinds.filter(k => ['object', 'array', 'null-object', 'map', 'set'].includes(k));
  const k0 = conts.length && c.bool(0.9) ? c.pick(conts) : c.pick(kinds), e0 = { v: undefined, done: false };
  const root = build(k0, 0, v => { e0.v = v; pool.push(e0); return v; });
  e0.done = true;
  return root;
}
const tagOf = v => Object.prototype.toString.call(v);
const isObj = v => (typeof v === 'object' && v !== null) || typeof v === 'function';
const slotKind = v => {
  if (Array.isArray(v)) return 'array'; if (Buffer.isBuffer(v)) return 'buffer'; if (ArrayBuffer.isView(v)) return v.constructor?.name ?? 'view';
  if (v instanceof ArrayBuffer) return 'arraybuffer';
  for (const [n, C, m] of [['date', Date, 'getTime'], ['map', Map, 'has'], ['set', Set, 'has'], ['regexp', RegExp, 'exec']]) if (v instanceof C) return n;
  return tagOf(v);
};
const viewBytes = v => v instanceof ArrayBuffer ? Buffer.from(new Uint8Array(v)) : Buffer.from(v.buffer, v.byteOffset, v.byteLength);
/**
 * Compare two graphs. opts: sharing (require the same sharing), attrs (property attributes), nonEnum, disjoint (collects violations), extras.
 * Returns null or a text describing the first difference.
 */
export function diffGraph(a, b, opts = {}) {
  const m1 = new Map(), m2 = new Map();
  const q = [[a, b, '$']];
  let nodes = 0;
  while (q.length) {
    const [x, y, p] = q.pop();
    if (!isObj(x) || !isObj(y)) { if (!(opts.zero ? x === y || Object.is(x, y) : Object.is(x, y))) return `${p}: ${String(typeof x)} ${tagOf(x)} vs ${typeof y} ${tagOf(y)} (${safe(x)} / ${safe(y)})`; continue; }
    if (opts.sharing) {
      if (m1.has(x) || m2.has(y)) { if (m1.get(x) !== y || m2.get(y) !== x) return `${p}: sharing differs`; continue; }
      m1.set(x, y); m2.set(y, x);
    } else { if (m1.get(x) === y) continue; m1.set(x, y); }
    nodes++;
    if (slotKind(x) !== slotKind(y)) return `${p}: kind ${slotKind(x)} vs ${slotKind(y)}`;
    if (Object.getPrototypeOf(x) !== Object.getPrototypeOf(y)) return `${p}: prototype differs`;
    if (opts.disjoint && x === y) return `${p}: the same ${slotKind(x)} object is reachable from both`;
    const k = slotKind(x);
    if (k === 'array' && x.length !== y.length) return `${p}: length ${x.length} vs ${y.length}`;
    if (k === 'date' && !Object.is(+x, +y)) return `${p}: date`;
    if (k === 'regexp' && (x.source !== y.source || x.flags !== y.flags || (opts.lastIndex && x.lastIndex !== y.lastIndex))) return `${p}: regexp ${x}#${x.lastIndex} vs ${y}#${y.lastIndex}`;
    if (ArrayBuffer.isView(x) || x instanceof ArrayBuffer) { if (/^Float/.test(k) ? x.length !== y.length || x.some((e, i) => !Object.is(e, y[i])) : !viewBytes(x).equals(viewBytes(y))) return `${p}: bytes ${viewBytes(x).toString('hex')} vs ${viewBytes(y).toString('hex')}`; }
    if (opts.attrs && k === 'DataView' && (x.byteOffset !== y.byteOffset || !viewBytes(x.buffer).equals(viewBytes(y.buffer)))) return `${p}: offset or buffer of a view`;
    if (k === 'map') { const e1 = [...x], e2 = [...y]; if (e1.length !== e2.length) return `${p}: map size`; e1.forEach((e, i) => { q.push([e[0], e2[i][0], `${p}<key${i}>`], [e[1], e2[i][1], `${p}<val${i}>`]); }); }
    if (k === 'set') { const e1 = [...x], e2 = [...y]; if (e1.length !== e2.length) return `${p}: set size`; e1.forEach((e, i) => q.push([e, e2[i], `${p}<item${i}>`])); }
    if (/\[object (Number|String|Boolean|BigInt)\]/.test(k)) { if (!Object.is(x.valueOf(), y.valueOf())) return `${p}: boxed value`; }
    if (opts.slotsOnly && k !== 'array' && k !== '[object Object]') continue;
    const view = ArrayBuffer.isView(x);
    const keys = o => Reflect.ownKeys(o).filter(n => !(view && typeof n === 'string' && /^\d+$/.test(n)) && (opts.nonEnum || Object.getOwnPropertyDescriptor(o, n).enumerable) && !(k === 'array' && n === 'length') && !(k === 'regexp' && n === 'lastIndex') && !(n === 'stack' && x instanceof Error));
    const k1 = keys(x), k2 = keys(y), s2 = new Set(k2);
    if (k1.length !== k2.length || k1.some(n => !s2.has(n))) return `${p}: keys ${k1.map(String)} vs ${k2.map(String)}`;
    if (opts.order && k1.some((n, i) => n !== k2[i])) return `${p}: key order`;
    for (const n of k1) {
      const d1 = Object.getOwnPropertyDescriptor(x, n), d2 = Object.getOwnPropertyDescriptor(y, n);
      if (opts.attrs && !(x instanceof Error) && ['enumerable', 'writable', 'configurable'].some(f => d1[f] !== d2[f])) return `${p}.${String(n)}: attributes`;
      q.push([d1.value, d2.value, `${p}.${String(n)}`]);
    }
  }
  return null;
}
const safe = v => { try { return typeof v === 'symbol' ? String(v) : typeof v === 'bigint' ? v + 'n' : JSON.stringify(v)?.slice(0, 60) ?? String(v); } catch { return tagOf(v); } };
/** every object reachable through properties, map entries and set items */
export function reach(v) {
  const seen = new Set(), q = [v];
  while (q.length) {
    const x = q.pop(); if (!isObj(x) || seen.has(x)) continue; seen.add(x);
    if (x instanceof Map) for (const [a, b] of x) q.push(a, b); else if (x instanceof Set) q.push(...x);
    if (ArrayBuffer.isView(x) && !Buffer.isBuffer(x)) seen.add(x.buffer);
    for (const n of Reflect.ownKeys(x)) { const d = Object.getOwnPropertyDescriptor(x, n); if (d && 'value' in d) q.push(d.value); }
  }
  return seen;
}
/** structural snapshot (deep clone that keeps sharing) made without the code under test */
export function snapshot(v, map = new Map()) {
  if (!isObj(v) || typeof v === 'function') return v;
  if (map.has(v)) return map.get(v);
  let o;
  const k = slotKind(v);
  if (k === 'array') { o = []; o.length = v.length; } else if (k === 'buffer') o = Buffer.from(v); else if (v instanceof DataView) o = new DataView(v.buffer.slice(0), v.byteOffset, v.byteLength);
  else if (ArrayBuffer.isView(v)) o = v.slice(); else if (v instanceof ArrayBuffer) o = v.slice(0); else if (k === 'date') o = new Date(+v); else if (k === 'regexp') { o = new RegExp(v.source, v.flags); o.lastIndex = v.lastIndex; }
  else if (k === 'map') o = new Map(); else if (k === 'set') o = new Set(); else if (/\[object (Number|String|Boolean|BigInt)\]/.test(k)) o = Object(v.valueOf()); else if (v instanceof Error) o = new v.constructor(); else o = Object.create(Object.getPrototypeOf(v));
  map.set(v, o);
  if (k === 'map') for (const [a, b] of v) o.set(snapshot(a, map), snapshot(b, map));
  if (k === 'set') for (const a of v) o.add(snapshot(a, map));
  for (const n of Reflect.ownKeys(v)) {
    if (ArrayBuffer.isView(v) && typeof n === 'string' && /^\d+$/.test(n)) continue;
    const d = Object.getOwnPropertyDescriptor(v, n), have = Object.getOwnPropertyDescriptor(o, n);
    if (have && !have.configurable) { if (have.writable && 'value' in d && !(k === 'array' && n === 'length')) o[n] = d.value; continue; }
    if ('value' in d) d.value = snapshot(d.value, map);
    Object.defineProperty(o, n, d);
  }
  return o;
}
