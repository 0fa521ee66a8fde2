import { load } from '../lib/bundle.mjs';
import { VClock } from '../lib/sched.mjs';
export const rule = 'histories of 5..60 operations (call, advance the virtual clock, delete, clear) over 1..5 keys with any timeout; non-trivial: distinct operation history';
export default async function (ctx) {
  const clock = new VClock().install();
  const { memoizeWith } = load('function');
  await ctx.section('history', ctx.n(6000), async c => {
    const keys = c.pick([[1, 2, 3, 4, 5], ['a', 'b', '__proto__', 'constructor', ''], [NaN, 0, null, undefined, false], [{}, {}, Symbol('s'), [], () => { }], [0, '0', false, '', 'false']]).slice(0, c.int(1, 5));
    const timeout = c.pick([undefined, undefined, 10, 50, 0, -1, -1000, 1.5, NaN, '10', Infinity, null, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 5, 2592e6, 1e12]);
    const limited = Number.isSafeInteger(timeout), model = new Map(), hist = [];
    const split = k => { const b = c.int(0, 9), n = keys.length; return [((k - b) % n + n) % n, b]; };
    let runs = 0, next, cur;
    class Custom0 extends Map { } const Custom = c.bool(0.2) ? Custom0 : null, init0 = memoizeWith.cacheInitializer; if (Custom) memoizeWith.cacheInitializer = Custom;
    const memo = memoizeWith((...a) => { runs++; c.ok(a.length === 3 && a[0] === cur[0] && a[1] === cur[1] && a[2] === cur[2], 'args', 'wrapped function got other arguments'); if (next.throw) throw next.throw; return next.value; }, c.pick([(a, b) => keys[(a + b) % keys.length], (...a) => keys[(a[0] + a[1]) % keys.length], (a, b = 0) => keys[(a + b) % keys.length], function () { return keys[(arguments[0] + arguments[1]) % keys.length]; }]), ...(timeout === undefined && c.bool() ? [] : [timeout]));
    memoizeWith.cacheInitializer = init0;
    for (let s = 0, N = c.int(5, 60); s < N; s++) {
      const op = c.weighted([[8, 'call'], [3, 'adv'], [1, 'delete'], [0.5, 'clear'], [0.4, 'cache-delete'], [0.2, 'cache-clear']]), k = c.int(0, keys.length - 1);
      if (op === 'call') {
        next = c.bool(0.15) ? { throw: new Error('t' + s) } : { value: c.pick([{ s }, undefined, null, 0, false, NaN, '', 's' + s]) };
        cur = [...split(k), {}]; const b = runs, m = model.get(k), hit = m && (!limited || clock.now - m.at <= timeout);
        let out; try { out = { value: memo(...cur) }; } catch (e) { out = { throw: e }; }
        c.ok(runs - b === (hit ? 0 : 1), 'execution-count', () => `call on key ${k} ran the function ${runs - b} times, expected ${hit ? 0 : 1}; ${hist.join(' ')}`);
        const want = hit ? { value: m.value } : next;
        c.ok('throw' in want ? out.throw === want.throw : 'value' in out && Object.is(out.value, want.value), 'value', () => `call on key ${k} gave ${String(out.value)}; ${hist.join(' ')}`);
        if (!hit && 'value' in next) model.set(k, { value: next.value, at: clock.now });
        hist.push((hit ? 'h' : 'throw' in next ? 't' : 'r') + k); ctx.stat(hit ? 'hits' : 'runs');
      } else if (op === 'adv') { const d = limited && timeout > 1e6 && c.bool(0.7) ? c.pick([timeout, timeout + 1, timeout - 1, 2 ** 31, 1000]) : c.pick([1, 9, 10, 11, 50, 51, 1000]); clock.advance(d); hist.push('+' + d); }
      else if (op === 'delete') { memo.delete(...split(k), ...c.arr(0, 1, () => 'more')); model.delete(k); hist.push('D' + k); }
      else if (op === 'cache-delete') { memo.cache.delete(keys[k]); model.delete(k); hist.push('d' + k); }
      else if (op === 'cache-clear') { memo.cache.clear(); model.clear(); hist.push('c'); }
      else { memo.clear(); model.clear(); hist.push('C'); }
      keys.forEach((key, i) => { if (!model.has(i) || !limited || clock.now - model.get(i).at <= timeout) c.ok(memo.cache.has(key) === model.has(i), 'cache', () => `cache ${memo.cache.has(key) ? 'has' : 'has no'} entry for key ${i}; ${hist.join(' ')}`); });
      c.ok(!Custom || memo.cache instanceof Custom, 'cacheInitializer', 'another cache class was used');
    }
    c.ev({ timeout, keys, history: hist.join(' ') });
  });
  // many entries, functions that declare fewer parameters than they are given
  await ctx.section('many', ctx.n(24), async (c, i) => {
    const n = [16, 64, 100, 128, 255, 257, 500, 1000, 1001, 1025, 5000, 10001][i % 12], timeout = [undefined, 1e6][i % 2]; let runs = 0, bad = 0; const body = (...a) => { runs++; if (a.length !== 4 || a[3] !== 'z') bad++; return { k: a[0] }; }, fn = [(k, ...r) => body(k, ...r), (k, a = 1, ...r) => body(k, a, ...r), function (k) { return body(...arguments); }][i % 3];
    const memo = memoizeWith(fn, (k, x) => x + k, timeout); c.ev([n, timeout, i % 3]); const first = Array.from({ length: n }, (_, k) => memo(k, 'x', 'y', 'z')); c.ok(runs === n && memo.cache.size === n, 'execution-count', () => `${runs} executions, ${memo.cache.size} entries for ${n} keys`);
    c.ok(first.every((v, k) => v.k === k && memo(k, 'x', 'y', 'z') === v) && runs === n, 'reused', () => `${runs - n} of ${n} values were computed again`); memo.delete(0, 'x'); memo(1, 'x', 'y', 'z'); c.ok(runs === n, 'delete-other', 'another key was forgotten'); memo(0, 'x', 'y', 'z'); c.ok(runs === n + 1, 'delete', 'the deleted key was not forgotten'); c.ok(!bad, 'args', 'wrapped function got other arguments'); ctx.stat('many_keys', n);
  });
}
