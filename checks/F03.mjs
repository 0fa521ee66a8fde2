import { load } from '../lib/bundle.mjs';
import { Pool, VClock, watch } from '../lib/sched.mjs';
export const rule = 'a script of attempt outcomes (sync throw, rejection, sync or async value; errors and non-error reasons), maxRetry 0..6, fixed/ranged/no wait and callback behaviours; the virtual clock measures the wait between attempts; non-trivial: distinct (script, options)';
export const assumptions = ['time is virtual: the wait is the clock distance between one attempt ending and the next starting', 'maxRetry is a non-negative integer and waits are non-negative integers'];
export default async function (ctx) {
  const clock = new VClock().install(), realRandom = Math.random;
  const { retry } = load('function');
  const spread = new Map();
  await ctx.section('script', ctx.n(4000), async c => {
    const maxRetry = c.int(0, 6), pool = new Pool(c);
    const fails = c.weighted([[3, c.int(0, maxRetry + 1)], [2, maxRetry + 1], [1, 0]]);
    const waitKind = c.pick(['none', 'zero', 'fixed', 'range', 'one']);
    const fixed = c.int(1, 5000), lo = c.weighted([[4, c.int(1, 40)], [1, c.pick([999, 1000, 1001, 5000, 60000, 1e6, 2 ** 30])]]), hi = lo + c.int(0, 4); const draw = c.int(0, 3); Math.random = draw === 0 ? () => 0 : draw === 1 ? () => 1 - 2 ** -53 : realRandom;
    const retryWait = { none: undefined, zero: 0, fixed, range: { start: lo, end: hi }, one: { start: lo, end: lo } }[waitKind];
    const withErr = c.bool(0.6), withRetry = c.bool(0.6), asPromise = c.bool(0.08);
    const stopAt = withRetry && c.bool(0.35) ? c.int(1, maxRetry + 1) : Infinity;
    const fb = c.pick([undefined, 'fb', 0, null, '', false, NaN]);
    const value = c.pick([undefined, null, 0, 'v', { a: 1 }, NaN]);
    const errs = [], starts = [], ends = [], log = []; let attempts = 0;
    const mk = k => c.pick([new Error('e' + k), new TypeError('t' + k), 'str' + k, { r: k }, undefined, null, new DOMException('d' + k, 'AbortError'), Object.assign(new Error('n' + k), { name: c.pick(['AbortError', 'TimeoutError', 'AssertionError']), code: 'ABORT_ERR' }), Object.freeze(new SyntaxError('f' + k)), new AggregateError([1], 'a' + k), new Error('c' + k, { cause: 'x' }), false]);
    const task = (...args) => {
      attempts++; starts.push(clock.now); log.push('T'); c.ok(args.length === 0, 'task-args', 'task got arguments'); c.ok(starts.length === ends.length + 1, 'overlap', 'attempts overlap');
      const fin = () => ends.push(clock.now);
      if (attempts > fails) { if (c.bool(0.4)) { fin(); return value; } return pool.make('ok', { ok: value }, fin); }
      const e = mk(attempts); errs.push(e); if (c.bool(0.4)) { fin(); throw e; } return pool.make('err', { err: e }, fin);
    };
    let promiseErr; let t = task;
    if (asPromise) { if (fails) { promiseErr = new Error('p'); t = Promise.reject(promiseErr); t.catch(() => { }); } else t = Promise.resolve(value); }
    const onErr = [], onRe = [];
    const opts = {};
    if (waitKind !== 'none') opts.retryWait = retryWait;
    if (withErr) opts.onError = (...a) => { log.push('E'); onErr.push(a); return fb; };
    if (withRetry) opts.onRetry = (...a) => { log.push('R'); onRe.push(a); return a[1] >= stopAt ? true : c.pick([undefined, false, 1, 'true']); };
    const snapshot = JSON.stringify(opts.retryWait);
    const w = watch(retry(maxRetry, t, opts));
    for (let s = 0; ; s++) {
      await c.drain(1);
      if (!pool.settleOne() && !clock.fireNext()) break;
      if (s > 200) c.fail('no-progress', 'more than 200 steps');
      if (pool.open.length && c.bool(0.3)) clock.advance(c.int(1, 3)); // attempts take time too
    }
    await c.drain(3);
    // reference
    let a = 0, r = 0, out; const elog = [], f = asPromise ? (fails ? Infinity : 0) : fails, waits = [];
    for (;;) {
      a++; if (!asPromise) elog.push('T');
      if (a > f) { out = 'ok'; break; }
      if (a > 1) { r++; if (withRetry) { elog.push('R'); if (r >= stopAt) { out = 'stop'; break; } } }
      if (a === maxRetry + 1) { out = 'exhausted'; break; }
    }
    if (out !== 'ok' && withErr) elog.push('E');
    c.ev({ fails, maxRetry, retryWait, stopAt, withErr, fb, asPromise }, JSON.stringify([f, maxRetry, waitKind, lo, hi, stopAt, withErr, String(fb), asPromise]));
    ctx.stat('attempts', attempts); ctx.stat('outcome_' + out);
    if (!asPromise) c.ok(attempts === a, 'attempt-count', () => `${attempts} attempts, expected ${a}`);
    c.eq(log.join(''), elog.join(''), 'event-order');
    const all = asPromise ? Array(a).fill(promiseErr) : errs;
    onRe.forEach((x, k) => { c.ok(x[1] === k + 1 && Object.is(x[0], all[k + 1]), 'onRetry-args', () => `onRetry call ${k}: ${x[1]}`); });
    if (onErr.length) c.ok(Object.is(onErr[0][0], all[a - 1]), 'onError-arg', 'onError did not get the last error');
    if (out === 'ok') { c.ok(w.state === 'ok' && Object.is(w.value, value), 'value', () => `${w.state} ${String(w.value)}`); }
    else if (withErr || out === 'stop') c.ok(w.state === 'ok' && Object.is(w.value, withErr ? fb : undefined), 'fallback', () => `${w.state} ${String(w.value)} ${w.error}`);
    else {
      c.ok(w.state === 'err' && w.error instanceof AggregateError, 'aggregate', () => `${w.state} ${w.error}`);
      c.ok(w.error.errors.length === maxRetry + 1 && w.error.errors.every((e, k) => Object.is(e, all[k])), 'aggregate-errors', () => `errors: ${w.error.errors.length}`);
    }
    for (let k = 1; k < starts.length; k++) {
      const gap = starts[k] - ends[k - 1], lim = { none: [0, 0], zero: [0, 0], fixed: [fixed, fixed], range: [lo, hi], one: [lo, lo] }[waitKind];
      c.ok(gap >= lim[0] && gap <= lim[1], 'wait', () => `waited ${gap} ms between attempts, configured ${JSON.stringify(retryWait)}`);
      ctx.stat('waits_measured');
    }
    Math.random = realRandom;
    c.ok(JSON.stringify(opts.retryWait) === snapshot, 'options-mutated', 'options changed');
    c.ok(clock.pending === 0, 'timer-left', 'a timer is still pending after the result');
  });
  // many attempts
  await ctx.section('many', ctx.n(20), async (c, i) => {
    const m = [7, 9, 10, 11, 31, 50, 99, 100, 101, 1000][i % 10], good = [Infinity, m, m + 1, m + 2][i % 4]; let n = 0; const nums = []; const w = watch(retry(m, () => { n++; if (n >= good) return 'v' + n; throw n; }, { onRetry: (e, a) => { nums.push(a); c.ok(e === a + 1, 'onRetry-args', 'another error'); } })); c.ev([m, good]);
    for (let k = 0; w.state === 'pending' && k < 4000; k++) { await c.drain(1); while (clock.fireNext()); } const att = Math.min(good, m + 1); c.eq(n, att, 'attempt-count'); c.eq(nums.length, good > m + 1 ? m : att > 1 ? att - 2 : 0, 'onRetry-count');
    if (good <= m + 1) c.ok(w.value === 'v' + good, 'value', () => `${w.state}`); else { c.ok(w.state === 'err' && w.error.errors.length === m + 1 && w.error.errors.every((e, k) => e === k + 1), 'aggregate-errors', () => `${w.state}`); } ctx.stat('many_attempts', n);
  });
}
