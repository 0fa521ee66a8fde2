import { load } from '../lib/bundle.mjs';
import vm from 'node:vm';
import { Pool, VClock, watch } from '../lib/sched.mjs';
export const rule = 'task lists of 0..9 entries (sync/async functions, promises, plain values), concurrency 1..n+2 or default, retries off or on, in-flight tasks settled in a seeded random order, one or several per step; non-trivial: a distinct (task kinds, concurrency, settle order) triple';
export const assumptions = ['promise tasks are already running when handed over: only their start notification and their slot are scheduled', 'slot idleness is judged at quiescent points (microtask queue drained)'];
export default async function (ctx) {
  const clock = new VClock().install();
  const { parallel } = load('function');
  await ctx.section('schedule', ctx.n(2500), async c => {
    const n = c.weighted([[1, 0], [2, 1], [12, c.int(2, 9)]]);
    const pool = new Pool(c);
    const useStart = c.bool(0.8), useData = c.bool(0.7), conc = c.bool(0.15) ? undefined : c.int(1, n + 2);
    const onlyFns = !useStart;
    const kinds = Array.from({ length: n }, () => c.weighted(onlyFns ? [[1, 'async'], [0.3, 'sync']] : [[6, 'async'], [1, 'sync'], [2, 'promise'], [1, 'plain']]));
    const events = []; const running = new Set(); let maxRun = 0; const startOrder = []; const execs = new Array(n).fill(0); const values = [];
    const opened = new Set();
    const eff = conc === undefined ? n : Math.min(conc, n);
    const begin = i => { running.add(i); startOrder.push(i); maxRun = Math.max(maxRun, running.size); c.ok(running.size <= eff, 'over-concurrency', () => `${running.size} tasks in flight with concurrency ${conc}`); };
    const done = new Set();
    const tasks = kinds.map((k, i) => {
      const v = values[i] = c.pick([{ v: i }, i, undefined, null, 0, 'x' + i, NaN, false, [i]]);
      const fin = () => { done.add(i); running.delete(i); };
      if (k === 'async') return (...a) => { execs[i]++; events.push(['run', i]); if (!useStart) begin(i); c.ok(a.length === 0, 'task-args', 'task called with arguments'); opened.add(i); return pool.make(i, { ok: v }, fin); };
      if (k === 'sync') return () => { execs[i]++; events.push(['run', i]); if (!useStart) begin(i); fin(); return v; };
      if (k === 'promise') return pool.make(i, { ok: v }, fin);
      values[i] = typeof v === 'function' ? 1 : v; return v;
    });
    const before = tasks.slice();
    const data = new Map();
    const opts = {}; if (conc !== undefined) opts.concurrency = conc;
    if (useStart) opts.onStart = (i, t) => { events.push(['start', i]); c.ok(Object.is(t, before[i]), 'onStart-task', 'onStart got another task than tasks[i]'); begin(i); if (kinds[i] === 'plain' || (kinds[i] === 'promise' && done.has(i))) { running.delete(i); done.add(i); } };
    if (useData) opts.onData = (i, v) => { events.push(['data', i]); c.ok(!data.has(i), 'onData-twice', `onData called twice for ${i}`); data.set(i, v); c.ok(Object.is(v, values[i]), 'onData-value', `onData(${i}) got another value`); c.ok(done.has(i), 'onData-early', `onData(${i}) before the task completed`); };
    if (c.bool(0.2)) opts.maxRetry = c.int(0, 3);
    const w = watch(parallel(tasks, ...(Object.keys(opts).length || c.bool() ? [opts] : [])));
    const order = []; let steps = 0;
    for (;;) {
      await c.drain(2);
      // quiescent: every free slot must be in use while tasks are waiting
      const notStarted = n - new Set(startOrder).size;
      if (notStarted > 0) c.ok(running.size === eff, 'idle-slot', () => `${notStarted} tasks waiting but only ${running.size} of ${eff} slots busy`);
      if (w.state === 'ok') c.ok(done.size === n, 'early-result', () => `resolved after ${done.size}/${n} tasks`);
      if (!pool.open.length) { if (!clock.fireNext()) break; else continue; }
      for (let k = c.bool(0.25) ? c.int(2, 3) : 1; k > 0 && pool.open.length; k--) { pool.settleOne(); order.push(pool.log.at(-1)); }
      if (++steps > 200) c.fail('no-progress', 'more than 200 steps');
    }
    await c.drain(3);
    c.ev({ kinds: kinds.join(), conc, order: order.join() });
    ctx.stat('starts', startOrder.length); ctx.stat('settles', order.length); ctx.statMax('max_in_flight', maxRun);
    c.ok(w.state === 'ok', 'not-resolved', () => `parallel is ${w.state} ${w.error || ''}`);
    c.ok(Array.isArray(w.value) && w.value.length === n, 'result-length', () => `result length ${w.value && w.value.length} expected ${n}`);
    for (let i = 0; i < n; i++) c.ok(Object.is(w.value[i], values[i]), 'result-order', () => `result[${i}] is not task ${i}'s value`);
    c.ok(startOrder.every((x, k) => x === k) && startOrder.length === (onlyFns || useStart ? n : startOrder.length), 'start-order', () => `start order ${startOrder}`);
    for (let i = 0; i < n; i++) if (kinds[i] === 'async' || kinds[i] === 'sync') c.ok(execs[i] === 1, 'exec-once', () => `task ${i} executed ${execs[i]} times`);
    if (useStart) for (let k = 0; k < events.length; k++) if (events[k][0] === 'run') c.ok(k > 0 && events[k - 1][0] === 'start' && events[k - 1][1] === events[k][1], 'onStart-before', 'onStart not immediately before the task');
    if (useData) c.ok(data.size === n, 'onData-missing', () => `onData called for ${data.size}/${n}`);
    c.ok(tasks.length === n && tasks.every((t, i) => Object.is(t, before[i])), 'tasks-mutated', 'the task list was modified');
  });
  // long lists: the bound, the default, every value in its place
  const Foreign = vm.runInNewContext('Promise'); class Sub extends Promise { }
  await ctx.section('sizes', ctx.n(24), async (c, i) => {
    const n = [16, 33, 64, 65, 100, 101, 128, 257, 500, 501, 1000, 2049][i % 12], conc = [undefined, 1, 7, 64, 100, n, n * 2][i % 7], eff = Math.min(conc ?? n, n); let fly = 0, top = 0, next = 0; const data = [], open = [];
    const tasks = Array.from({ length: n }, (_, k) => k % 10 === 9 ? [k, Foreign.resolve(k), Sub.resolve(k)][k % 3] : () => { top = Math.max(top, ++fly); return new Promise(r => open.push(() => { fly--; r(k); })); }); c.ev([n, conc]);
    const w = watch(parallel(tasks, { ...(conc === undefined ? {} : { concurrency: conc }), onStart: k => { if (k !== next++) c.fail('start-order', `task ${k} started as number ${next - 1}`); }, onData: (k, v) => { if (k !== v) c.fail('onData-value', `onData(${k}, ${String(v)})`); data.push(k); } }));
    await c.drain(3); if (eff === n) c.ok(next === n, 'idle-slot', () => `${next} of ${n} tasks started with concurrency ${conc ?? 'default'}`);
    for (let g = 0; w.state === 'pending' && g < 3 * n; g++) { const k = open.length ? c.int(0, Math.min(open.length - 1, 3)) : -1; if (k >= 0) open.splice(k, 1)[0](); if (eff < 8 || g % 16 === 0 || !open.length) await c.drain(1); }
    await c.drain(2); c.ok(w.state === 'ok' && w.value.length === n && w.value.every((v, k) => v === k), 'result-order', () => `${w.state}: wrong result list`); c.ok(top <= eff, 'over-concurrency', () => `${top} in flight, concurrency ${conc}`); c.ok(data.length === n && new Set(data).size === n, 'onData-missing', () => `onData for ${new Set(data).size} of ${n}`); ctx.stat('long_lists', n);
  });
}
