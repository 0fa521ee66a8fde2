import { load } from '../lib/bundle.mjs';
import { Pool, VClock, watch } from '../lib/sched.mjs';
export const rule = 'histories of 5..40 operations (call, settle one execution as value or failure, advance the virtual clock, delete, clear) over 1..4 keys with a timeout that is absent, negative, zero, positive or invalid; non-trivial: distinct operation history';
export const assumptions = ['after delete or clear of a key with an execution in flight, whether its value is cached later is not specified', 'time is virtual'];
export default async function (ctx) {
  const clock = new VClock().install();
  const { memoizeWithAsync } = load('function');
  await ctx.section('history', ctx.n(3000), async c => {
    const pool = new Pool(c);
    const keyObjs = c.pick([[1, 2, 3, 4], ['a', 'b', '__proto__', 'constructor'], [NaN, 0, null, undefined], [{}, {}, Symbol('s'), 'x'], [0, '0', false, '']]).slice(0, c.int(1, 4));
    const timeout = c.pick([undefined, undefined, 10, 10, 50, 0, -1, 1.5, NaN, '10', Infinity]);
    const limited = Number.isSafeInteger(timeout);
    const model = keyObjs.map(() => ({ cache: null, inflight: null }));
    let execs = 0; const started = keyObjs.map(() => 0);
    const calls = []; const hist = [];
    let current = null, lastEx = null;
    const split = k => { const b = c.int(0, 9), n = keyObjs.length; return [((k - b) % n + n) % n, b]; };
    const fn = (k0, tag, ...more) => {
      const k = (k0 + tag) % keyObjs.length;
      const m = model[k]; execs++; started[k]++;
      c.ok(!m.inflight, 'two-in-flight', () => `two executions in flight for key ${k}: ${hist.join(' ')}`);
      const ex = m.inflight = { k, id: execs, kind: null };
      c.ok(current && current.k === k && current.tag === tag && more.length === 1 && more[0] === current.extra, 'args', 'wrapped function got other arguments');
      ex.value = c.pick([{ id: execs }, undefined, null, 0, false, 'v' + execs, NaN]); ex.error = c.pick([new Error('x' + execs), 'reason', undefined]);
      const how = c.weighted([[6, 'async'], [1, 'sync'], [1, 'throw']]);
      ex.ok = how === 'sync' || (how === 'async' && c.bool(0.7));
      const fin = () => { ex.settled = true; }; lastEx = ex;
      if (how === 'sync') { ex.settled = true; return ex.value; }
      if (how === 'throw') { ex.settled = true; m.inflight = null; throw ex.error; } // nothing is in flight after a synchronous throw
      return pool.make(ex, ex.ok ? { ok: ex.value } : { err: ex.error }, fin);
    };
    class Custom0 extends Map { } const Custom = c.bool(0.2) ? Custom0 : null, init0 = memoizeWithAsync.cacheInitializer; if (Custom) memoizeWithAsync.cacheInitializer = Custom;
    const memo = memoizeWithAsync(fn, c.pick([(k, tag) => keyObjs[(k + tag) % keyObjs.length], (...a) => keyObjs[(a[0] + a[1]) % keyObjs.length], (k, tag = 0) => keyObjs[(k + tag) % keyObjs.length], function () { return keyObjs[(arguments[0] + arguments[1]) % keyObjs.length]; }]), ...(timeout === undefined && c.bool() ? [] : [timeout]));
    memoizeWithAsync.cacheInitializer = init0;
    const settleModel = () => { for (const m of model) if (m.inflight && m.inflight.settled) { if (m.inflight.ok) m.cache = { value: m.inflight.value, at: clock.now }; m.inflight = null; } };
    const live = m => m.cache && (!limited || clock.now - m.cache.at <= timeout);
    const call = () => {
      const k = c.int(0, keyObjs.length - 1), m = model[k]; const extra = { x: 1 };
      const [k0, tag] = split(k); current = { k, tag, extra };
      const before = started[k]; const want = live(m) ? { type: 'hit', value: m.cache.value } : m.inflight ? { type: 'join', ex: m.inflight } : { type: 'run' };
      const w = watch(memo(k0, tag, extra)); current = null;
      const ran = started[k] - before;
      c.ok(ran === (want.type === 'run' ? 1 : 0), 'execution-count', () => `call on key ${k} ran the function ${ran} times, expected ${want.type}; ${hist.join(' ')}`);
      if (want.type === 'run') want.ex = lastEx;
      calls.push({ w, want, k }); hist.push(`${want.type}${k}`); ctx.stat('call_' + want.type);
    };
    for (let s = 0, N = c.int(5, 40); s < N; s++) {
      const op = c.weighted([[6, 'call'], [4, 'settle'], [2, 'adv'], [0.7, 'delete'], [0.4, 'clear'], [1.5, 'burst']]);
      if (op === 'call') call();
      else if (op === 'burst') { for (let b = c.int(2, 4); b--;) call(); }
      else if (op === 'settle') { if (pool.settleOne()) hist.push('S' + pool.log.at(-1).k); }
      else if (op === 'adv') { const d = c.pick([1, 9, 10, 11, 50, 51, 1000]); clock.advance(d); hist.push('+' + d); }
      else if (op === 'delete') { const k = c.int(0, keyObjs.length - 1); if (!model[k].inflight) { if (c.bool(0.3)) memo.cache.delete(keyObjs[k]); else memo.delete(...split(k)); model[k].cache = null; hist.push('D' + k); } }
      else if (!model.some(m => m.inflight)) { if (c.bool(0.3)) memo.cache.clear(); else memo.clear(); for (const m of model) m.cache = null; hist.push('C'); }
      await c.drain(1); settleModel();
      c.ok(!Custom || memo.cache instanceof Custom, 'cacheInitializer', 'another cache class was used'); model.forEach((m, i) => { if (!m.inflight && (!m.cache || live(m))) c.ok(memo.cache.has(keyObjs[i]) === !!m.cache, 'cache', () => `cache ${m.cache ? 'has no' : 'has an'} entry for key ${i}; ${hist.join(' ')}`); });
      for (const { w, want, k } of calls) {
        if (want.checked) continue;
        if (want.type === 'hit') { c.ok(w.state === 'ok' && Object.is(w.value, want.value), 'hit-value', () => `cached call on key ${k}: ${w.state} ${String(w.value)} expected ${String(want.value)}; ${hist.join(' ')}`); want.checked = 1; }
        else if (want.ex.settled) { c.ok(want.ex.ok ? w.state === 'ok' && Object.is(w.value, want.ex.value) : w.state === 'err' && Object.is(w.error, want.ex.error), 'join-outcome', () => `call on key ${k} did not settle with its execution's outcome: ${w.state}; ${hist.join(' ')}`); want.checked = 1; }
        else c.ok(w.state === 'pending', 'early-settle', () => `call on key ${k} settled before its execution; ${hist.join(' ')}`);
      }
    }
    while (pool.settleOne()) { await c.drain(1); settleModel(); }
    for (const { w, want } of calls) if (!want.checked) c.ok(want.ex.ok ? w.state === 'ok' && Object.is(w.value, want.ex.value) : w.state === 'err' && Object.is(w.error, want.ex.error), 'join-outcome', 'a call did not settle with the outcome of its execution');
    c.ev({ timeout, keys: keyObjs, history: hist.join(' ') }); ctx.stat('executions', execs);
  });
  // removing entries while an execution runs never makes a second one run beside it
  await ctx.section('remove-in-flight', ctx.n(300), async (c, i) => {
    const rm = ['clear', 'delete', 'cache.clear', 'cache.delete'][i % 4], fails = (i >> 2) % 2 === 1, timeout = [undefined, 10, 0][i % 3]; let flying = 0, top = 0, runs = 0, open = []; const v = { v: 1 }, e = new Error('e');
    const memo = memoizeWithAsync((k, x) => { runs++; top = Math.max(top, ++flying); return new Promise((res, rej) => open.push(() => { flying--; fails ? rej(e) : res(v); })); }, k => k, ...(timeout === undefined ? [] : [timeout]));
    const remove = () => rm === 'clear' ? memo.clear() : rm === 'delete' ? memo.delete('k') : rm === 'cache.clear' ? memo.cache.clear() : memo.cache.delete('k'); c.ev([rm, fails, timeout, i % 5]);
    if (i % 5 === 0) { const w = watch(memo('k', 0)); await c.drain(1); open.shift()(); await c.drain(1); if (!fails) remove(); }
    const r0 = runs, ws = [watch(memo('k', 1))]; await c.drain(c.int(0, 2)); remove(); for (let k = c.int(1, 4); k--;) { ws.push(watch(memo('k', 2 + k))); if (c.bool()) remove(); await c.drain(c.int(0, 1)); if (c.bool(0.3)) clock.advance(100); }
    c.ok(runs === r0 + 1 && top === 1, 'two-in-flight', () => `${runs - r0} executions after ${rm} while one was in flight`); while (open.length) { open.shift()(); await c.drain(1); }
    for (const w of ws) c.ok(fails ? w.state === 'err' && w.error === e : w.state === 'ok' && w.value === v, 'joined', () => `a call that joined is ${w.state}`); ctx.stat('removed_in_flight');
  });
  // many keys in flight, many cached, functions that declare fewer parameters than they are given
  await ctx.section('many', ctx.n(24), async (c, i) => {
    const n = [16, 63, 64, 65, 100, 128, 257, 1000, 1025, 3000, 5000, 10001][i % 12], runs = new Map(), open = [], seen = []; const fn = [(k, ...r) => go(k, r), (k, a = 1, ...r) => go(k, [a, ...r])][i % 2], go = (k, r) => { runs.set(k, (runs.get(k) ?? 0) + 1); if (r.length !== 3 || r[2] !== 'z') seen.push(r); return new Promise(res => open.push(() => res('v' + k))); };
    const memo = memoizeWithAsync(fn, k => k); c.ev([n, i % 2]); const all = () => Promise.all(Array.from({ length: n }, (_, k) => memo(k, 'x', 'y', 'z'))); const a = all(), b = all(); await c.drain(1); c.ok(open.length === n, 'execution-count', () => `${open.length} executions for ${n} keys called twice`); open.splice(0).forEach(f => f());
    const [x, y] = [await a, await b]; c.ok(x.every((v, k) => v === 'v' + k) && y.every((v, k) => v === 'v' + k), 'join-outcome', 'another key\'s outcome'); c.ok(memo.cache.size === n, 'cache', () => `cache holds ${memo.cache.size} of ${n}`);
    const z = all(); await c.drain(1); c.ok(open.length === 0, 'not-cached', () => `${open.length} of ${n} values were not reused`); open.forEach(f => f()); await z; c.eq(seen, [], 'args'); ctx.stat('many_keys', n);
  });
}
