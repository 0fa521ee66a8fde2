import { load } from '../lib/bundle.mjs';
export const rule = 'numbers over all magnitudes, special values and decimal strings; non-trivial: distinct input';
export const assumptions = ['withDelimiter is given decimal text and delimiters without digits; where the groups of a number printed with an exponent begin is not specified'];
export default async function (ctx) {
  const N = load('number');
  const num = c => c.pick([() => c.pick([0, -0, 1, -1, 0.1, -0.5, 2 ** 53, 2 ** 53 - 1, -(2 ** 53), 1e21, 1e-7, 5e-324, Number.MAX_VALUE, -Number.MAX_VALUE, 4.7, 999, 1000, 1001]), () => c.int(-1e6, 1e6), () => c.int(-1e6, 1e6) / 100, () => (c.float() - 0.5) * 10 ** c.int(-10, 25)])();
  const F64 = new Float64Array(1), U32 = new Uint32Array(F64.buffer);
  const anyF = c => { U32[0] = c.u32(); U32[1] = c.u32(); return F64[0]; };
  await ctx.section('toInt', ctx.n(5000), async c => {
    const n = c.bool(0.8) ? num(c) : c.pick([NaN, Infinity, -Infinity, anyF(c)]), v = c.pick([() => n, () => String(n), () => ` ${n}\n`])(); c.ev(v);
    if (!Number.isFinite(n)) return void c.throws(() => N.toInt(v), 'toInt', e => e instanceof TypeError);
    const r = N.toInt(v), x = typeof v === 'string' ? Number(v) : v; c.ok(Number.isInteger(r) && r <= x && (Math.abs(x) >= 2 ** 52 ? r === x : r + 1 > x), 'toInt', () => `toInt(${v}) = ${r}`);
    c.throws(() => N.toInt(c.pick(['', ' ', '\t\n', 'abc', '1,2', '12px', '--1', undefined, {}])), 'toInt-invalid', e => e instanceof TypeError);
  });
  await ctx.section('toFiniteNumber', ctx.n(3000), async c => {
    const v = c.pick([() => num(c), () => String(num(c)), () => c.pick([NaN, Infinity, -Infinity, undefined, null, '', 'foo', true, false, [], {}, '0x10', '1e400', ' 7 ', '12px', new Date(5), { valueOf: () => 3 }])])(), d = c.pick([0, -1, NaN, 42, undefined]); c.ev([v, d]);
    const x = Number(v); c.ok(Object.is(N.toFiniteNumber(v, d), x === x && Math.abs(x) !== Infinity ? x : d), 'toFiniteNumber', () => `gave ${N.toFiniteNumber(v, d)}`);
  });
  await ctx.section('inRange', ctx.n(6000), async c => {
    const b = () => c.pick([() => num(c), () => c.int(-3, 3), () => c.pick([Infinity, -Infinity])])(); const s = b(), e = c.bool(0.6) ? b() : undefined, v = c.pick([() => b(), () => s, () => e ?? 0, () => s + 1, () => s - 1, () => 0, () => -0])(); c.ev([v, s, e]);
    if (Number.isNaN(v)) return; const lo = e === undefined ? Math.min(0, s) : Math.min(s, e), hi = e === undefined ? Math.max(0, s) : Math.max(s, e);
    c.eq(e === undefined && c.bool() ? N.inRange(v, s) : N.inRange(v, s, e), lo <= v && v <= hi, 'inRange');
    const bad = c.pick([NaN, '1', null, {}]); c.throws(() => N.inRange(bad, 1, 2), 'value', x => x instanceof TypeError); c.throws(() => N.inRange(1, bad, 2), 'start', x => x instanceof TypeError); c.throws(() => N.inRange(1, 0, bad), 'end', x => x instanceof TypeError);
  });
  await ctx.section('stringify', ctx.n(4000), async c => { const n = c.bool(0.5) ? anyF(c) : c.bool(0.1) ? c.pick([NaN, Infinity, -Infinity]) : num(c); c.ev(n, String(Object.is(n, -0) ? '-0' : n)); const s = N.stringify(n); c.ok(typeof s === 'string' && Object.is(Number(s), n), 'stringify', () => `stringify(${n}) = ${s}`); });
  await ctx.section('spaced', ctx.n(200), async c => { const t = c.pick(['', ' ', '\t', '\n ']) + c.pick(['', '-', '+']) + c.str(1, 14, '0123456789') + (c.bool() ? '.' + c.str(1, 9, '0123456789') : '') + c.pick(['', ' ', '  ']), r = N.withDelimiter(t); c.ev(t); c.eq(r.split(',').join(''), t, 'withDelimiter-spaced'); c.ok(/^\s*[-+]?\d{1,3}(,\d{3})*(\.\d+)?\s*$/.test(r), 'withDelimiter-spaced-groups', () => `withDelimiter(${JSON.stringify(t)}) is ${r}`); });
  await ctx.section('withDelimiter', ctx.n(6000), async c => {
    const int = c.str(1, c.pick([3, 7, 24]), '0123456789'), dec = c.bool() ? '' : c.str(1, 8, '0123456789'), neg = c.bool(0.3) ? '-' : '', asNum = c.bool(0.3);
    let text = neg + int + (dec ? '.' + dec : ''), v = text; if (asNum) { v = c.bool(0.2) ? c.pick([1e-7, 5e-324, -3.25e-10, 1e21, -1.5e300, c.float() * 10 ** -c.int(5, 12)]) : Number(text); text = String(v); }
    const cap = c.pick([undefined, 1, 2, 3, 4, 5, c.int(1, 30)]), del = c.pick([undefined, ',', '_', ' ', '', '::', '$', '$&', '$1', "$'", '\\', '，']); c.ev([v, cap, del]);
    const o = {}; if (cap !== undefined) o.capacity = cap; if (del !== undefined) o.delimiter = del;
    const r = Object.keys(o).length || c.bool() ? N.withDelimiter(v, o) : N.withDelimiter(v); const d = del ?? ',', k = cap ?? 3;
    // exponents are not grouped in a specified way, but nothing is added except delimiters
    if (/e/.test(text)) return void c.eq(d ? r.split(d).join('') : r, text, 'withDelimiter-exponent');
    const m = /^(-?)(\d+)(?:\.(\d+))?$/.exec(text); let g = []; for (let e = m[2].length; e > 0; e -= k) g.unshift(m[2].slice(Math.max(0, e - k), e));
    c.eq(r, m[1] + g.join(d) + (m[3] ? '.' + m[3] : ''), 'withDelimiter');
    c.throws(() => N.withDelimiter(c.pick([NaN, Infinity, 'abc', {}, undefined])), 'value', e => e instanceof TypeError); c.throws(() => N.withDelimiter(1234, { capacity: c.pick([0, -1, 1.5, NaN, '3', Infinity]) }), 'capacity', e => e instanceof TypeError);
  });
}
