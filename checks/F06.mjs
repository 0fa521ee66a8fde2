import { load } from '../lib/bundle.mjs';
import vm from 'node:vm';
import { Pool, watch } from '../lib/sched.mjs';
export const rule = 'push histories of 0..24 promises (already resolved, or settled in a seeded order; pushes one after another or while batches are still resolving), every total 1..6 or none, restart and accumulate on or off; non-trivial: distinct (options, history)';
export const assumptions = ['at most one promise of a history rejects; its delivery must reject with that reason and no other call may'];
export default async function (ctx) {
  const { collectItems } = load('function'); const Foreign = vm.runInNewContext('Promise'); class Sub extends Promise { }
  await ctx.section('history', ctx.n(4000), async c => {
    const total = c.bool(0.3) ? undefined : c.int(1, 6), restart = c.bool(0.6), accumulate = c.bool(0.35), n = c.int(0, 24);
    const sequential = c.bool(0.5), pool = new Pool(c);
    const opts = {}; if (total !== undefined) opts.total = total; if (restart || c.bool()) opts.isRestart = restart; if (accumulate || c.bool()) opts.isAccumulate = accumulate;
    const push = Object.keys(opts).length || c.bool() ? collectItems(opts) : collectItems();
    const calls = [], hist = [], given = [];
    let buf = [], over = false, failing = null; const failMode = c.bool(0.3);
    for (let i = 0; i < n; i++) {
      let v = c.pick([i, { i }, 'v' + i]); const done = c.bool(0.25);
      const again = given.length && c.bool(0.1) ? c.pick(given) : null; if (again) v = again.v; // the same promise may be pushed again
      const fails = !again && !failing && failMode && c.bool(0.15), err = c.pick([new Error('rejected'), 'reason', undefined]); if (fails) { failing = { err }; v = failing; }
      const p = again ? again.p : sequential || c.bool(0.3) ? fails ? Promise.reject(err) : c.bool(0.2) ? Foreign.resolve(v) : c.bool(0.1) ? Sub.resolve(v) : Promise.resolve(v) : pool.make(i, fails ? { err } : { ok: v }); if (fails) p.catch(() => { });
      given.push({ p, v });
      buf.push(v);
      let want = { done: false, value: undefined };
      if (!over && (total === undefined ? done : buf.length % total === 0)) { want = { done: true, value: buf.slice() }; if (!accumulate) buf = []; if (!restart) over = true; }
      const w = watch(total === undefined ? (done || c.bool() ? push(p, done) : push(p)) : push(p));
      calls.push({ w, want, i }); hist.push((done ? 'P!' : 'P') + i);
      if (sequential) await c.drain(1);
      else for (let k = c.int(0, 2); k--;) { if (pool.settleOne()) hist.push('S' + pool.log.at(-1)); await c.drain(1); }
    }
    while (pool.settleOne()) await c.drain(1);
    await c.drain(2);
    c.ev({ total, restart, accumulate, sequential, history: hist.join(' ') }); ctx.stat('pushes', n);
    for (const { w, want, i } of calls) {
      if (want.done && failing && want.value.includes(failing)) { c.ok(w.state === 'err' && Object.is(w.error, failing.err), 'failed-batch', () => `call ${i} delivers a rejected promise but is ${w.state} ${String(w.error)}`); ctx.stat('rejected_deliveries'); continue; }
      c.ok(w.state === 'ok', 'not-settled', () => `call ${i} is ${w.state}`);
      c.ok(w.value && w.value.done === want.done, 'done-flag', () => `call ${i}: done=${w.value && w.value.done} expected ${want.done}; ${JSON.stringify(opts)} ${hist.join(' ')}`);
      c.eq(w.value.value, want.value, 'batch'); if (want.done) ctx.stat('deliveries');
    }
  });
  await ctx.section('sizes', ctx.n(20), async (c, i) => {
    const total = [16, 50, 64, 100, 128, 257, 500, 1000, 1025, 2000][i % 10], accumulate = i % 2 === 1, push = collectItems({ total, isRestart: true, isAccumulate: accumulate }), n = total * 3 - 1; c.ev([total, accumulate]); const got = await Promise.all(Array.from({ length: n }, (_, k) => push(i % 4 < 2 ? Promise.resolve(k) : new Promise(r => setImmediate(r, k)))));
    got.forEach((g, k) => { const due = (k + 1) % total === 0; if (g.done !== due) c.fail('size-done', `call ${k} of total ${total}: done ${g.done}`); if (due) c.eq(g.value, Array.from({ length: accumulate ? k + 1 : total }, (_, j) => accumulate ? j : k + 1 - total + j), 'size-batch'); }); ctx.stat('large_batches', 2);
  });
  await ctx.section('bad-total', 1, async c => { for (const t of [-1, 1.5, 'x', Infinity, {}]) { c.ev({ total: t }); c.throws(() => collectItems({ total: t }), 'bad-total', e => e instanceof TypeError); } });
}
