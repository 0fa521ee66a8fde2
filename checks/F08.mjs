import { load } from '../lib/bundle.mjs';
export const rule = 'call histories of 0..30 calls on 1..3 interleaved instances of each wrapper, with functions that return any value or throw, counts 0..6 and preset arguments; for singletonClass 1..4 classes related by inheritance, wrapped in any order; non-trivial: distinct history';
export const assumptions = ['once: a call that throws has not returned a result, so a later call runs the function again; re-entrant calls are not specified'];
export default async function (ctx) {
  const { once, runOnlyNTimes, runAfterTimes, toggle, singletonClass } = load('function');
  const vals = [undefined, null, 0, false, NaN, '', 'x', { o: 1 }, [], [1, [2]], () => 1, Symbol('v')];
  const mk = (c, log, allowThrow) => { const f = (...a) => { const r = allowThrow && c.bool(0.2) ? { throw: new Error('f') } : { value: c.pick(vals) }; log.push({ args: a, r }); if (r.throw) throw r.throw; return r.value; }; return f; };
  const call = (f, args) => { try { return { value: f(...args) }; } catch (e) { return { throw: e }; } };
  const sameOut = (a, b) => 'throw' in a ? a.throw === b.throw : 'value' in b && Object.is(a.value, b.value);
  const sameArgs = (a, b) => a.length === b.length && a.every((x, i) => Object.is(x, b[i]));
  await ctx.section('wrappers', ctx.n(4000), async c => {
    const insts = c.arr(1, 3, () => {
      const kind = c.pick(['once', 'only', 'after']), log = [], f = mk(c, log, true), pre = c.arr(0, c.pick([3, 3, 12]), () => c.pick(vals)), n = c.bool(0.1) ? c.pick([2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32, 2 ** 32 + 1, 2 ** 32 + 2, Number.MAX_SAFE_INTEGER]) : c.int(0, 6);
      return { kind, log, f, pre, n, calls: 0, w: kind === 'once' ? once(f, ...pre) : kind === 'only' ? runOnlyNTimes(n, f, ...pre) : runAfterTimes(n, f, ...pre), res: null };
    });
    const hist = [];
    for (let s = c.int(0, 30); s--;) {
      const x = c.pick(insts), args = c.arr(0, c.pick([3, 3, 12]), () => c.pick(vals)), before = x.log.length, out = call(x.w, args); x.calls++;
      const ran = x.log.length - before, last = x.log.at(-1);
      hist.push(x.kind[1] + insts.indexOf(x));
      if (x.kind === 'once') {
        if (x.res) { c.ok(ran === 0 && sameOut(out, x.res), 'once', () => `ran ${ran} times after its first result, or changed it`); }
        else { c.ok(ran === 1 && sameOut(out, last.r) && sameArgs(last.args, [...x.pre, ...args]), 'once-first', () => `ran ${ran} times`); if ('value' in last.r) x.res = last.r; }
      } else if (x.kind === 'only') {
        if (x.calls <= x.n) c.ok(ran === 1 && sameOut(out, last.r) && sameArgs(last.args, [...x.pre, ...args]), 'runOnlyNTimes', () => `call ${x.calls} of ${x.n} ran ${ran} times`);
        else c.ok(ran === 0 && 'value' in out && out.value === undefined, 'runOnlyNTimes-over', () => `call ${x.calls} of ${x.n} ran ${ran} times`);
      } else {
        if (x.calls >= x.n) c.ok(ran === 1 && sameOut(out, last.r) && sameArgs(last.args, x.pre), 'runAfterTimes', () => `call ${x.calls}, count ${x.n}, ran ${ran} times`);
        else { c.ok(ran === 0 && typeof out.value === 'function', 'runAfterTimes-early', () => `call ${x.calls}, count ${x.n}, ran ${ran} times`); if (c.bool()) x.w = out.value; }
      }
    }
    c.ev({ insts: insts.map(x => x.kind + x.n + ':' + x.pre.length), hist: hist.join(' ') }); ctx.stat('calls', hist.length);
  });
  await ctx.section('bad-count', 1, async c => { for (const n of [-1, 1.5, NaN, '3', Infinity, undefined]) { c.ev({ n }); c.throws(() => runOnlyNTimes(n, () => 1), 'bad-count', e => e instanceof TypeError); c.throws(() => runAfterTimes(n, () => 1), 'bad-count', e => e instanceof TypeError); } });
  await ctx.section('bad-callback', 1, async c => { for (const f of [undefined, null, 1, 'f', {}, async () => 1, async function () { }, Promise.resolve()]) { c.ev({ f: String(f) }); c.throws(() => runOnlyNTimes(2, f), 'bad-callback', e => e instanceof TypeError); c.throws(() => runAfterTimes(2, f), 'bad-callback', e => e instanceof TypeError); } });
  await ctx.section('toggle', ctx.n(3000), async c => {
    const pool = [0, -0, NaN, 1, '', 'a', null, undefined, {}, [], false, true, () => 1], l = c.pick(pool); let r = c.pick(pool); if (Object.is(l, r)) r = { other: 1 };
    const t = toggle(l, r); let cur = l; const hist = [];
    for (let s = c.int(1, 20); s--;) {
      const op = c.pick(['t', 't', 't', 'l', 'r']); hist.push(op);
      if (op === 't') { cur = Object.is(cur, l) ? r : l; const got = t.toggle(); c.ok(Object.is(got, cur), 'toggle', () => `toggle() gave ${String(got)} between ${String(l)} and ${String(r)} after ${hist.join('')}`); }
      else if (op === 'l') { cur = l; t.setLeft(); } else { cur = r; t.setRight(); }
      c.ok(Object.is(t.value, cur), 'toggle-value', () => `value is ${String(t.value)} after ${hist.join('')}`);
    }
    c.ev({ l, r, hist: hist.join('') });
  });
  await ctx.section('singleton', ctx.n(1500), async c => {
    const log = []; const classes = [];
    const n = c.int(1, 4);
    for (let i = 0; i < n; i++) {
      const parent = i && c.bool(0.6) ? c.int(0, i - 1) : -1, viaProxy = c.bool(0.3), base = parent < 0 ? Object : viaProxy ? classes[parent].S : classes[parent].K;
      const K = parent < 0 ? class { constructor(...a) { log.push([i, new.target]); this.a = a; } } : class extends base { constructor(...a) { super(...a); this['k' + i] = a; } };
      classes.push({ K, S: singletonClass(K), parent, first: null });
    }
    const hist = [];
    for (let s = c.int(1, 15); s--;) {
      const i = c.int(0, n - 1), x = classes[i], plain = c.bool(0.15), args = c.arr(0, 2, () => c.int(0, 9)); const before = log.length;
      const o = plain ? new x.K(...args) : new x.S(...args); hist.push((plain ? 'p' : 's') + i);
      c.ok(o instanceof x.K && Object.getPrototypeOf(o) === x.K.prototype, 'singleton-type', () => `new wrapper of class ${i} (parents ${classes.map(k => k.parent)}) gave an instance of another class; ${hist.join(' ')}`);
      if (plain) { c.ok(!classes.some(k => k.first === o), 'singleton-plain', 'direct construction returned the singleton'); continue; }
      if (x.first) c.ok(o === x.first && log.length === before, 'singleton-same', () => `second construction of class ${i} made another instance; ${hist.join(' ')}`);
      else { x.first = o; c.ok(log.length === before + 1 && o.a.length === args.length && o.a.every((v, k) => v === args[k]), 'singleton-first', 'first construction did not run once with its arguments'); }
    }
    c.ev({ parents: classes.map(k => k.parent), hist: hist.join(' ') });
  });
}
