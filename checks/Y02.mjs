import { inspect } from 'node:util';
import { load } from '../lib/bundle.mjs';
import { catalogue } from '../lib/kinds.mjs';
import { MORE as BASE } from './Y01.mjs';
class Plain { }
const MORE = { ...BASE, isPrototypeOf: c => [[c.pick([[], {}, new Map(), Object.create({}), 1, null, () => 1, Object.create(Plain.prototype)])]] };

export const rule = 'every exported assertion × the catalogue of values of every kind, with the extra arguments its predicate takes, in random order; non-trivial: distinct (assertion, value, arguments)';
export const assumptions = ['the verdict of the predicate itself is decided by Y01', 'an assertion that throws names the variable it was given'];
const OTHER = { assertOwnProperty: 'hasOwnProperty', assertTagEqual: 'getTagEqual', assertTypeofEqual: 'typeofEqual' }, NOVAR = ['assertEqual', 'assertNotEqual', 'assertEvery', 'assertSome'], PLATFORM = ['assertNodejs', 'assertBrowser', 'assertDeno', 'assertWebWorker'];
const safe = v => { try { return inspect(v, { depth: 1 }).slice(0, 100); } catch { return '?'; } };
export default async function (ctx) {
  const a = load('asserts'), t = load('types'), all = Object.keys(a).filter(n => /^assert/.test(n) && !NOVAR.includes(n) && !PLATFORM.includes(n)), pred = n => OTHER[n] || 'is' + n.slice(6), names = all.filter(n => typeof t[pred(n)] === 'function' && typeof a[n] === 'function');
  ctx.stat('assertions', names.length); const odd = all.filter(n => !names.includes(n)); if (odd.length) ctx.notes.push('assertions without a predicate of their name: ' + odd);
  const run = (f, args) => { try { return ['returned', f(...args)]; } catch (x) { return ['threw', x]; } };
  const judge = (c, n, v, name, args, s) => {
    const want = run(t[pred(n)], [v, ...args]), got = run(a[n], [v, name, ...args]), text = () => `${n}(${s} ${safe(v)}, ${inspect(name)}${args.length ? ', ' + safe(args) : ''})`;
    if (want[0] === 'threw') return;
    if (want[1] === true) c.ok(got[0] === 'returned' && got[1] === undefined, 'rejects-member', () => `${text()} ${got[0]} ${got[1]}, but ${pred(n)} holds`);
    else { c.ok(got[0] === 'threw', 'accepts-other', () => `${text()} returned, but ${pred(n)} is ${want[1]}`); c.ok(got[1] instanceof TypeError, 'error-class', () => `${text()} threw ${safe(got[1])}, not a TypeError`); if (name && typeof name === 'string') c.ok(String(got[1].message).includes(name), 'names-variable', () => `${text()}: the message does not name the variable: ${got[1].message}`); }
    ctx.stat(want[1] ? 'accepted' : 'rejected');
  };
  await ctx.section('catalogue', ctx.n(8, 20), async (c, i) => {
    const values = c.shuffle(catalogue(c)), name = (l => l[i % l.length])(['value', 'options.name', ' padded ', '', 'a b', '$1', '$&', '%s', '参数', 'x'.repeat(40)].sort((x, y) => (y === ' padded ') - (x === ' padded '))); c.ev(values.map(e => e.s).join());
    for (const n of c.shuffle(names)) for (const e of values) { if (pred(n) === 'isPrimeNumber' && typeof e.v === 'number' && e.v > 1e12) continue; judge(c, n, e.v, name, [], e.s); }
  });
  await ctx.section('arguments', ctx.n(80, 20), async c => {
    const values = catalogue(c).concat([Array.prototype, Map.prototype, Plain.prototype, Object.prototype, Function.prototype].flatMap(v => Array(8).fill({ v, k: new Set(), s: 'prototype' }))), ns = names.filter(n => Object.hasOwn(MORE, pred(n))); c.ev(c.label); ctx.statMax('assertions with arguments', ns.length);
    for (const n of ns) for (let i = 0; i < 60; i++) { const e = c.pick(values), [args] = MORE[pred(n)](c); judge(c, n, e.v, 'name', pred(n) === 'isArrayLike' ? args.slice(0, 1) : args, e.s); }
  });
  await ctx.section('comparison', ctx.n(4000), async c => {
    const pool = [0, -0, 1, NaN, '', 'a', '0', null, undefined, true, 1n, {}], v = c.pick(pool), args = Array.from({ length: c.pick([0, 1, 1, 2, 3]) }, () => c.bool(0.6) ? v : c.pick(pool)), eq = (x, y) => x === y || (x !== x && y !== y); c.ev([v, args]);
    const check = (n, f, good) => { const got = run(a[n], f); c.ok(good ? got[0] === 'returned' && got[1] === undefined : got[0] === 'threw' && got[1] instanceof TypeError, n, () => `${n}(${f.map(safe)}) ${got[0]} ${got[1]}, expected ${good ? 'to pass' : 'a TypeError'}`); };
    check('assertEqual', [v, ...args], args.length > 0 && args.every(x => eq(v, x))); check('assertNotEqual', [v, ...args], args.length > 0 && args.every(x => !eq(v, x)));
    const P = [['isNumberPrimitive', x => typeof x === 'number' && x === x], ['isStringPrimitive', x => typeof x === 'string'], ['isTruthy', x => !!x], ['isUintSafe', x => Number.isSafeInteger(x) && x >= 0]], ps = Array.from({ length: c.pick([1, 1, 2]) }, () => c.pick(P)), vs = Array.from({ length: c.int(1, 4) }, () => c.pick([1, 0, -1, NaN, '', 'a', null, 2.5])), pf = ps.length === 1 && c.bool() ? t[ps[0][0]] : ps.map(p => t[p[0]]), one = c.bool(0.2), val = one ? vs[0] : vs, list = one ? [vs[0]] : vs; c.ev([val, ps.map(p => p[0])]);
    check('assertEvery', [val, pf], list.every(x => ps.every(p => p[1](x)))); check('assertSome', [val, pf], list.some(x => ps.every(p => p[1](x))));
  });
  await ctx.section('platform', 1, async c => { c.ev('platform'); c.eq(run(a.assertNodejs, []), ['returned', undefined], 'assertNodejs'); for (const n of PLATFORM.slice(1)) { const g = run(a[n], []); c.ok(g[0] === 'threw' && g[1] instanceof TypeError, n, () => `${n}() ${g}`); } });
}
