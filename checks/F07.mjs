import { load } from '../lib/bundle.mjs';
import { Pool, VClock, watch } from '../lib/sched.mjs';
export const rule = 'duration values of every documented form (integers incl. negative/limits, integer strings, functions, ranges in either order, nested arrays) and invalid ones; helper runs with tasks completing before, at or after the duration on a virtual clock; non-trivial: distinct duration value or distinct (helper, duration, completion order)';
export const assumptions = ['Math.random is replaced by a seeded source with extreme draws; reachability of both ends is judged over 300 draws of a 1..4 value set'];
const MAX = 2147483647;
export default async function (ctx) {
  const clock = new VClock().install(); const realRandom = Math.random;
  const F = load('function');
  // value description: the set it may resolve to (as list or [lo,hi]) or 'invalid'
  const gen = (c, d = 0) => {
    const k = c.weighted([[3, 'int'], [1, 'str'], [3, 'range'], [d < 2 ? 1.5 : 0, 'arr'], [d < 2 ? 1 : 0, 'fn'], [1.2, 'bad']]);
    if (k === 'int') { const v = c.pick([0, 1, c.int(0, 5000), -c.int(1, 99), MAX, MAX - 1, -MAX - 5, MAX + 1, Number.MAX_SAFE_INTEGER, Number.MIN_SAFE_INTEGER]); return { v, sets: [[v, v]] }; }
    if (k === 'str') { const n = c.pick([0, c.int(0, 9999), -3, MAX, MAX + 1]); return { v: c.pick([String(n), ` ${n} `, `${n}.0`, `${n}`.padStart(6, n < 0 ? ' ' : '0'), n < 0 ? String(n) : `+${n}`, n < 0 ? String(n) : '0x' + n.toString(16), `${n}e0`, `\n${n}\t`]), sets: [[n, n]] }; }
    if (k === 'range') {
      const a = c.int(-5, 20), b = a + c.pick([0, 1, 2, 3, c.int(4, 1000)]); const [s, e] = c.bool(0.7) ? [a, b] : [b, a];
      const o = {}; let S = s, E = e; if (c.bool(0.9)) o.start = s; else S = 0; if (c.bool(0.9)) o.end = e; else E = 0;
      return { v: o, sets: [[Math.min(S, E), Math.max(S, E)]] };
    }
    if (k === 'arr') { const xs = c.arr(1, 4, () => gen(c, d + 1)); return { v: xs.map(x => x.v), sets: xs.flatMap(x => x.sets) }; }
    if (k === 'fn') { const x = gen(c, d + 1); return { v: () => x.v, sets: x.sets }; }
    return { v: c.pick([1.5, NaN, Infinity, -Infinity, 'abc', '1.5', undefined, null, true, Symbol('x'), 10n, [], { start: 'a' }, { start: 1.5, end: 1.5 }, { start: 0, end: NaN }, 2 ** 53, new Date(5), new Map(), /5/, Object(5), new Set([5])]), sets: [null] };
  };
  const seedRandom = c => { Math.random = () => { const r = c.float(); return r < 0.1 ? 0 : r > 0.9 ? 1 - 2 ** -53 : c.float(); }; };
  await ctx.section('resolve', ctx.n(6000), async c => {
    const { v, sets } = gen(c); seedRandom(c);
    c.ev(v);
    for (let k = 0; k < 4; k++) {
      let r, e; try { r = F.timeoutMsResolve(v); } catch (x) { e = x; }
      if (e) { c.ok(e instanceof TypeError, 'wrong-error', () => `threw ${e}`); c.ok(sets.some(s => !s || s[1] > MAX), 'rejected-valid', () => `valid duration rejected: ${e.message}`); ctx.stat('rejected'); }
      else { c.ok(Number.isInteger(r) && r >= 0 && r <= MAX, 'bounds', () => `resolved to ${r}`); c.ok(sets.some(s => s && r >= Math.max(0, s[0]) && r <= Math.max(0, s[1])), 'outside', () => `resolved to ${r}, described ${JSON.stringify(sets)}`); ctx.stat('resolved'); }
    }
    Math.random = realRandom;
  });
  await ctx.section('reach', ctx.n(150), async c => {
    const a = c.int(0, 30), b = a + c.int(0, 3), o = c.bool() ? { start: a, end: b } : { start: b, end: a }, v = c.bool(0.7) ? o : c.bool() ? () => o : [o];
    Math.random = () => c.float(); const got = new Set(); for (let i = 0; i < 300; i++) got.add(F.timeoutMsResolve(v)); Math.random = realRandom;
    c.ev(v, `${a} ${b} ${o.start}`); for (let x = a; x <= b; x++) if (x > a && x < b) c.ok(got.has(x), 'unreachable-interior', () => `${x} of ${JSON.stringify(o)} never drawn: ${[...got]}`); else if (!got.has(x)) ctx.knownFinding('range-end-unreachable', `end ${x} of ${JSON.stringify(o)} never drawn: ${[...got]}`);
    const xs = c.arr(2, 5, i => i * 3); const g2 = new Set(); Math.random = () => c.float(); for (let i = 0; i < 400; i++) g2.add(F.timeoutMsResolve(xs)); Math.random = realRandom;
    c.ok(g2.size === xs.length, 'unreachable-candidate', () => `candidates ${xs} drawn ${[...g2]}`);
  });
  await ctx.section('helpers', ctx.n(4000), async c => {
    const which = c.pick(['delay', 'delayReturn', 'delayRun', 'setTimeout', 'timeoutOr', 'timeoutOr', 'timeoutOr']);
    const dur = c.pick([0, 1, c.int(2, 40), 1000]), form = c.pick([dur, String(dur), () => dur, { start: dur, end: dur }, [dur]]);
    const taskAt = c.pick([0, dur - 1, dur + 1, c.int(0, 60), 2 * dur, dur + 50].filter(x => x >= 0)), kind = c.pick(['sync', 'throw', 'async', 'async', 'async', 'reject']);
    const val = c.pick([{ val: 1 }, { val: 1 }, undefined, null, 0, false, '']), err = c.pick([new Error('task'), 'reason', undefined]), args = c.arr(0, c.pick([3, 3, 10]), i => ({ i }));
    const t0 = clock.now; let ran = 0, ranAt, cbRan = 0, cbAt, timerless = clock.pending;
    const argsOk = a => c.ok(a.length === args.length && a.every((x, i) => x === args[i]), 'args', 'arguments not passed through');
    const task = (...a) => { ran++; ranAt = clock.now; argsOk(a); if (kind === 'sync') return val; if (kind === 'throw') throw err; return new Promise((res, rej) => setTimeout(() => kind === 'async' ? res(val) : rej(err), taskAt)); };
    const immediate = kind === 'sync' || kind === 'throw', ok = kind === 'sync' || kind === 'async';
    // node fires a 0 ms timer after 1 ms
    const tEff = immediate ? 0 : Math.max(1, taskAt);
    let w, settledAt, sync; const cbVal = { cb: 1 }; const cbKind = c.pick(['fn', 'slow', 'value', 'none', 'reject']); const slow = c.int(1, 60);
    const cb = cbKind === 'fn' ? (...a) => { cbRan++; cbAt = clock.now; argsOk(a); return cbVal; } : cbKind === 'slow' ? (...a) => { cbRan++; cbAt = clock.now; argsOk(a); return new Promise(r => setTimeout(r, slow, cbVal)); } : cbKind === 'reject' ? () => { cbRan++; cbAt = clock.now; return Promise.reject('cberr'); } : cbKind === 'value' ? cbVal : undefined;
    const asPromise = which === 'timeoutOr' && !immediate && c.bool(0.3);
    if (which === 'delay') w = watch(F.delay(form));
    else if (which === 'delayReturn') w = watch(F.delayReturn(form, task, ...args));
    else if (which === 'delayRun') w = watch(F.delayRun(form, task, ...args));
    else if (which === 'setTimeout') { let done; F.setTimeout((...a) => { task(...a); }, form, ...args); if (kind === 'throw' || kind === 'reject') { for (const t of clock.timers) t.cb = () => { ran++; ranAt = clock.now; }; } w = { state: 'n/a' }; }
    else w = watch(asPromise ? F.timeoutOr(form, new Promise((res, rej) => setTimeout(() => kind === 'async' ? res(val) : rej(err), taskAt)), cb, ...args) : F.timeoutOr(form, task, cb, ...args));
    let leftover; const look = () => { if (settledAt === undefined && w.state !== 'pending' && w.state !== 'n/a') { settledAt = clock.now - t0; leftover = clock.timers.map(t => t.at - t0); } };
    await c.drain(2); look();
    for (let s = 0; clock.fireNext(); s++) { await c.drain(2); look(); if (s > 30) c.fail('no-progress', 'too many timers'); }
    const wait = Math.max(which === 'delay' || which.startsWith('delayR') ? 0 : 1, dur), rel = x => x - t0;
    c.ev({ which, dur, form: typeof form, taskAt, kind, cbKind, asPromise });
    ctx.stat(which);
    if (which === 'delay') { c.ok(w.state === 'ok' && w.value === undefined && settledAt === dur, 'delay', () => `delay(${dur}) ${w.state} after ${settledAt}`); }
    else if (which === 'setTimeout') { c.ok(ran === 1 && rel(ranAt) === wait, 'setTimeout', () => `callback ran ${ran} times at ${rel(ranAt)}, duration ${dur}`); }
    else if (which === 'delayRun') {
      c.ok(ran === 1 && rel(ranAt) === dur, 'delayRun-start', () => `task ran ${ran} times at ${ranAt && rel(ranAt)}, duration ${dur}`);
      c.ok(ok ? w.state === 'ok' && w.value === val : w.state === 'err' && Object.is(w.error, err), 'delayRun-outcome', () => `${w.state}`);
      c.ok(settledAt === dur + tEff, 'delayRun-time', () => `settled at ${settledAt}, expected ${dur + tEff}`);
    } else if (which === 'delayReturn') {
      c.ok(ran === 1 && rel(ranAt) === 0, 'delayReturn-start', () => `task ran ${ran} times`);
      c.ok(ok ? w.state === 'ok' && w.value === val : w.state === 'err' && Object.is(w.error, err), 'delayReturn-outcome', () => `${w.state}`);
      c.ok(settledAt === Math.max(dur, tEff), 'delayReturn-time', () => `settled at ${settledAt}, task done at ${tEff}, duration ${dur}`);
    } else {
      const D = Math.max(1, dur);
      if (tEff === D) return; // tie: either outcome is allowed
      if (tEff < D) {
        c.ok(ok ? w.state === 'ok' && w.value === val : w.state === 'err' && Object.is(w.error, err), 'timeoutOr-task', () => `task completed at ${tEff} before ${D} but the result is ${w.state} ${String(w.value)} ${String(w.error)}`);
        c.ok(settledAt === tEff, 'timeoutOr-time', () => `settled at ${settledAt}, task at ${tEff}`); c.ok(cbRan === 0, 'timeoutOr-callback', 'callback ran although the task was in time');
        c.ok(!leftover.length, 'timeoutOr-timer', () => `timer left running after the task's outcome: ${leftover}`);
      } else {
        const at = D + (cbKind === 'slow' ? slow : 0);
        c.ok(cbKind === 'reject' ? w.state === 'err' && w.error === 'cberr' : w.state === 'ok' && w.value === (cbKind === 'none' ? undefined : cbVal), 'timeoutOr-fallback', () => `task needs ${tEff} > ${D} but the result is ${w.state} ${String(w.value)} ${String(w.error)}, callback ${cbKind} ${slow}`);
        c.ok(settledAt === at, 'timeoutOr-fallback-time', () => `settled at ${settledAt}, expected ${at}`);
        if (['fn', 'slow', 'reject'].includes(cbKind)) c.ok(cbRan === 1 && rel(cbAt) === D, 'timeoutOr-callback', () => `callback ran ${cbRan} times`);
      }
      if (!asPromise) c.ok(ran === 1 && rel(ranAt) === 0, 'timeoutOr-run', () => `task ran ${ran} times`);
    }
  });
  await ctx.section('default-duration', 40, async c => { let ran = 0, at; const t0 = clock.now, n = clock.requests.length; F.setTimeout((...a) => { ran++; at = clock.now; c.eq(a, [], 'args'); }); c.ok(clock.requests.length === n + 1, 'default', 'no timer'); clock.fireNext(); c.ev({ at: at - t0 }, c.label); c.ok(ran === 1 && at - t0 <= 1, 'default', () => `ran ${ran} times after ${at - t0}`); });
  await ctx.section('invalid', ctx.n(100), async c => {
    const bad = c.pick([1.5, NaN, 'x', null, MAX + 1, [], { start: 'a' }, true]); c.ev({ bad }); const n = clock.requests.length;
    c.throws(() => F.setTimeout(() => { }, bad), 'invalid', e => e instanceof TypeError); await c.rejects(Promise.resolve().then(() => F.delay(bad)), 'invalid', e => e instanceof TypeError);
    await c.rejects(Promise.resolve().then(() => F.delayReturn(bad, () => 1)), 'invalid', e => e instanceof TypeError); await c.rejects(F.delayRun(bad, () => c.fail('invalid-ran', 'task ran')), 'invalid', e => e instanceof TypeError);
    await c.rejects(Promise.resolve().then(() => F.timeoutOr(bad, new Promise(() => { }))), 'invalid', e => e instanceof TypeError);
    c.ok(clock.requests.length === n, 'invalid-timer', 'a timer was created for an invalid duration');
  });
  clock.uninstall();
  await ctx.section('delaySync', 6, async c => { const d = c.int(1, 8), t = process.hrtime.bigint(); F.delaySync(d); const el = Number(process.hrtime.bigint() - t) / 1e6; c.ev({ d }, String(d)); c.ok(el >= d - 1, 'delaySync', () => `returned after ${el} ms, duration ${d}`); });
}
