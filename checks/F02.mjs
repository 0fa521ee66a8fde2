import { load } from '../lib/bundle.mjs';
import { Pool, VClock, watch } from '../lib/sched.mjs';
export const rule = 'a failure script per task (number of failing attempts, each failing by throw or rejection with an error, or any non-error value), maxRetry 0..4, concurrency, wait, and every callback present or absent; attempts and waits complete in a seeded order; non-trivial: distinct (scripts, options, order) with at least one failure';
export const assumptions = ['without onError only the first exhausted task is judged (what the other tasks do after the rejection is not specified)', 'error identity is compared, the message prefix parallel adds is not'];
export default async function (ctx) {
  const clock = new VClock().install();
  const { parallel } = load('function');
  await ctx.section('faults', ctx.n(2500), async c => {
    const n = c.int(1, 6), maxRetry = c.int(0, 4), conc = c.int(1, n + 1);
    const pool = new Pool(c);
    const withErr = c.bool(0.65), withRetry = c.bool(0.6), withData = c.bool(0.6);
    const wait = c.pick([undefined, 0, 5, { start: 2, end: 9 }]);
    const scripts = Array.from({ length: n }, () => c.weighted([[3, 0], [4, c.int(0, maxRetry + 1)], [2, maxRetry + 1]]));
    const stopAt = scripts.map(() => withRetry && c.bool(0.15) ? c.int(1, maxRetry + 1) : Infinity); // onRetry returns true at this retry number
    const attempts = new Array(n).fill(0), errs = scripts.map(() => []), vals = scripts.map((_, i) => ({ val: i }));
    const fallback = scripts.map(() => c.pick([undefined, 'fb', 0, null, false, { fb: 1 }]));
    const named = (e, name) => Object.assign(e, { name }), mkErr = (i, k) => { const t = `e${i}.${k}`; return c.pick([() => new (c.pick([Error, TypeError, RangeError]))(t), () => new Error('[parallel] ' + t, c.pick([{ cause: 'text' }, { cause: { index: 99 } }, { cause: Object.freeze({ index: 98 }) }, { cause: null }])), () => new DOMException(t, 'AbortError'), () => Object.freeze(new Error(t)), () => new AggregateError([new Error('inner')], t), () => named(new Error(t), c.pick(['AbortError', 'TimeoutError', 'SyntaxError'])), () => ({ raw: `${i}.${k}` }), () => c.pick([undefined, null, 0, '', 'reason'])])(); };
    const exhaustedOrder = []; let running = 0;
    // reference: what each task has to do
    const expected = scripts.map((f, i) => {
      let a = 0, retries = 0;
      for (;;) { a++; if (a > f) return { attempts: a, ok: true, retries }; if (a > 1) { retries++; if (retries >= stopAt[i]) return { attempts: a, stopped: true, retries }; } if (a === maxRetry + 1) return { attempts: a, exhausted: true, retries }; }
    });
    const finished = new Set();
    const tasks = scripts.map((f, i) => () => {
      const k = ++attempts[i]; running++;
      c.ok(running <= Math.min(conc, n), 'over-concurrency', 'too many attempts in flight');
      c.ok(!finished.has(i), 'attempt-after-end', `task ${i} executed again after it ended`);
      const fin = () => { running--; if (k === expected[i].attempts) { finished.add(i); if (expected[i].exhausted) exhaustedOrder.push(i); } };
      if (k > f) { if (c.bool(0.3)) { fin(); return vals[i]; } return pool.make(i, { ok: vals[i] }, fin); }
      const e = mkErr(i, k); errs[i].push(e);
      if (c.bool(0.3)) { fin(); throw e; }
      return pool.make(i, { err: e }, fin);
    });
    const onErrCalls = [], onRetryCalls = scripts.map(() => []), dataCalls = [];
    const opts = { concurrency: conc, maxRetry };
    if (wait !== undefined) opts.retryWait = wait;
    if (withErr) opts.onError = (i, e) => { onErrCalls.push([i, e]); return fallback[i]; };
    if (withRetry) opts.onRetry = (i, e, a) => { onRetryCalls[i].push([e, a]); return a >= stopAt[i] ? true : c.pick([undefined, false, 1, 'true', {}]); };
    if (withData) opts.onData = (i, v) => dataCalls.push([i, v]);
    const w = watch(parallel(tasks, opts));
    let candidates = null, steps = 0; const order = [];
    for (;;) {
      const seen = exhaustedOrder.length;
      await c.drain(2);
      if (!withErr && !candidates && exhaustedOrder.length) candidates = exhaustedOrder.slice();
      if (!withErr && candidates) break;
      if (pool.open.length && (!clock.pending || c.bool(0.7))) { pool.settleOne(); order.push(pool.log.at(-1)); }
      else if (!clock.fireNext()) break;
      if (++steps > 500) c.fail('no-progress', 'more than 500 steps');
    }
    await c.drain(3);
    c.ev({ scripts: scripts.join(), stopAt: stopAt.join(), maxRetry, conc, wait, withErr, withRetry, order: order.join() });
    ctx.stat('attempts', attempts.reduce((a, b) => a + b, 0)); ctx.stat('failures', errs.reduce((a, b) => a + b.length, 0)); ctx.stat('onError_calls', onErrCalls.length);
    for (let i = 0; i < n; i++) c.ok(attempts[i] <= maxRetry + 1, 'retry-budget', () => `task ${i} executed ${attempts[i]} times, maxRetry ${maxRetry}`);
    if (candidates) {
      c.ok(w.state === 'err', 'not-rejected', () => `parallel is ${w.state} although task ${candidates} exhausted its retries without onError`);
      const e = w.error;
      c.ok(e instanceof AggregateError, 'not-aggregate', () => `rejected with ${e}`);
      const i = e.cause && e.cause.index;
      c.ok(candidates.includes(i), 'cause-index', () => `cause.index ${i}, exhausted task(s) ${candidates}`);
      c.ok(e.errors.length === maxRetry + 1 && e.errors.every((x, k) => x === errs[i][k]), 'aggregate-errors', () => `errors list has ${e.errors.length} entries, expected the ${maxRetry + 1} errors of task ${i}`);
      ctx.stat('rejections');
    } else {
      c.ok(w.state === 'ok', 'not-resolved', () => `parallel is ${w.state}: ${w.error && w.error.stack}`);
      c.ok(w.value.length === n, 'result-length', () => `length ${w.value.length} expected ${n}`);
      for (let i = 0; i < n; i++) {
        const x = expected[i];
        c.ok(attempts[i] === x.attempts, 'attempt-count', () => `task ${i} executed ${attempts[i]} times, expected ${x.attempts}`);
        const val = x.ok ? vals[i] : withErr ? fallback[i] : undefined;
        c.ok(Object.is(w.value[i], val), 'result-value', () => `result[${i}] = ${String(w.value[i])}`);
        const ec = onErrCalls.filter(([k]) => k === i);
        c.ok(ec.length === (withErr && !x.ok ? 1 : 0), 'onError-count', () => `onError called ${ec.length} times for task ${i}`);
        if (ec.length) c.ok(ec[0][1] === errs[i].at(-1), 'onError-error', 'onError got another error than the last one');
      }
      if (withData) { c.eq(dataCalls.map(d => d[0]).sort(), [...Array(n).keys()], 'onData-calls'); for (const [i, v] of dataCalls) c.ok(Object.is(v, w.value[i]), 'onData-value', `onData(${i}) value`); }
    }
    if (withRetry) for (let i = 0; i < n; i++) {
      const got = onRetryCalls[i];
      if (!candidates) c.ok(got.length === expected[i].retries, 'onRetry-count', () => `onRetry called ${got.length} times for task ${i}, expected ${expected[i].retries}`);
      got.forEach(([e, a], k) => { c.ok(a === k + 1, 'onRetry-number', () => `retry number ${a}, expected ${k + 1}`); c.ok(e === errs[i][k + 1], 'onRetry-error', 'onRetry got another error'); });
    }
    // leave nothing behind for the next case
    for (let k = 0; k < 500 && (pool.settleOne() || clock.fireNext()); k++) await c.tick();
    await c.drain(2);
  });
  // many retries
  await ctx.section('many-retries', ctx.n(20), async (c, i) => {
    const m = [9, 10, 11, 16, 31, 50, 99, 100, 101, 256][i % 10], runs = [0, 0, 0], nums = [], errsSeen = []; const tasks = [() => { runs[0]++; throw new Error('0.' + runs[0]); }, () => { runs[1]++; if (runs[1] <= m) throw new Error('1.' + runs[1]); return 'late'; }, () => { runs[2]++; return 'ok'; }]; c.ev([m, i % 2]);
    const w = watch(parallel(tasks, { maxRetry: m, concurrency: 1 + i % 3, onRetry: (k, e, a) => { if (k === 0) nums.push(a); }, ...(i % 2 ? { onError: (k, e) => { errsSeen.push([k, e.message.replace(/^.*: /, '')]); return 'fb'; } } : {}) })); for (let k = 0; w.state === 'pending' && k < 50; k++) { await c.drain(8); while (clock.fireNext()); }
    c.eq(runs[0], m + 1, 'retry-budget'); c.eq(nums, Array.from({ length: m }, (_, k) => k + 1), 'onRetry-number'); if (i % 2) { c.eq(w.value, ['fb', 'late', 'ok'], 'result-value'); c.eq(errsSeen, [[0, '0.' + (m + 1)]], 'onError-error'); c.eq(runs[1], m + 1, 'attempt-count'); } else { c.ok(w.state === 'err' && w.error.errors.length === m + 1, 'aggregate-errors', () => `${w.state}`); } ctx.stat('retries_long', m);
  });
}
