import { load } from '../lib/bundle.mjs';
import vm from 'node:vm';
import { Pool, watch } from '../lib/sched.mjs';
export const rule = 'each helper with every callee kind (sync value, sync throw, async value, async rejection, promise already settled or settling later), arguments, outcomes incl. undefined/falsy/non-error reasons and, for cancelExec, abort before/after completion and several times; non-trivial: distinct (helper, kinds, order)';
export const assumptions = ['a process-level monitor counts unhandled rejections in every case'];
export default async function (ctx) {
  const F = load('function');
  const vals = [undefined, null, 0, false, '', NaN, 'v', { o: 1 }, [1], new Error('value'), new DOMException('d', 'AbortError'), Symbol('s'), { then: 1 }, 10n, Object.freeze([])]; const Foreign = vm.runInNewContext('Promise'), ForeignError = vm.runInNewContext('Error'); class Own extends Error { } class Sub extends Promise { }
  const errs = () => [new SyntaxError('s'), new TypeError('t'), new RangeError('r'), new AggregateError([1], 'a'), new DOMException('d', 'AbortError'), new ForeignError('f'), new Own('o'), false, '', [], new Error('e'), 'reason', undefined, null, 0, { code: 1 }];
  await ctx.section('outcome', ctx.n(5000), async c => {
    const pool = new Pool(c), args = c.arr(0, c.pick([3, 3, 12]), () => c.pick(vals)); let badArgs = null;
    const make = (expectArgs, allow = ['sync', 'throw', 'async', 'reject', 'pOk', 'pErr', 'value']) => {
      const kind = c.pick(allow), v = c.pick(vals), e = c.pick(errs()), ok = ['sync', 'async', 'pOk', 'value'].includes(kind), o = { kind, v, e, ok, runs: 0 };
      const fn = body => (...a) => { o.runs++; if (a.length !== expectArgs().length || !expectArgs().every((x, i) => Object.is(x, a[i]))) badArgs = badArgs || [kind, a, expectArgs()]; return body(); };
      o.callee = kind === 'sync' ? fn(() => v) : kind === 'throw' ? fn(() => { throw e; }) : kind === 'async' ? fn(() => pool.make(o, { ok: v })) : kind === 'reject' ? fn(() => pool.make(o, { err: e })) : kind === 'pOk' ? (c.bool() ? c.pick([Promise, Promise, Foreign, Sub]).resolve(v) : pool.make(o, { ok: v })) : kind === 'pErr' ? pool.make(o, { err: e }) : c.pick([0, 'val', null, undefined, { k: 1 }, false]);
      if (kind === 'value') o.v = o.callee; o.isFn = typeof o.callee === 'function'; return o;
    };
    const finish = async () => { for (let k = 0; k < 50; k++) { await c.drain(1); if (!pool.settleOne()) break; } await c.drain(2); };
    const which = c.pick(['padding', 'tryCatch', 'noCatch', 'ifThrow', 'deferred', 'cancelExec', 'cancelExec', 'select', 'toPromise', 'executeToPromise']);
    let w, desc;
    const outcome = (o, key) => c.ok(o.ok ? w.state === 'ok' && Object.is(w.value, o.v) : w.state === 'err' && Object.is(w.error, o.e), key, () => `${which} of ${o.kind} is ${w.state} ${String(w.value)} ${String(w.error)}`);
    const ranOnce = o => c.ok(o.runs === (o.isFn ? 1 : 0), 'run-count', () => `${which}: ${o.kind} ran ${o.runs} times`);
    if (['padding', 'tryCatch', 'noCatch', 'toPromise', 'executeToPromise'].includes(which)) {
      const o = make(() => args, which === 'tryCatch' ? ['sync', 'throw', 'async', 'reject'] : which.endsWith('Promise') ? undefined : ['sync', 'throw', 'async', 'reject', 'pOk', 'pErr']);
      let p; try { p = which.endsWith('Promise') ? F[which](o.callee, args) : F[which](o.callee, ...args); } catch (x) { c.fail('sync-throw', `${which} threw synchronously`); }
      c.ok(p instanceof Promise || Object.prototype.toString.call(p) === '[object Promise]', 'not-promise', which); if (which === 'toPromise' && Object.prototype.toString.call(o.callee) === '[object Promise]') c.ok(p === o.callee, 'same-promise', 'toPromise did not hand back the promise it was given'); w = watch(p); await finish(); desc = { which, kind: o.kind, v: o.v, e: o.e, args }; c.last = desc; ranOnce(o);
      if (which === 'padding') { c.ok(w.state === 'ok' && Array.isArray(w.value) && w.value.length === 2, 'padding', () => `${w.state}`); c.ok(o.ok ? Object.is(w.value[0], o.v) && w.value[1] === null : w.value[0] === null && Object.is(w.value[1], o.e), 'padding-slots', () => `${String(w.value)}`); }
      else if (which === 'noCatch') c.ok(w.state === 'ok' && Object.is(w.value, o.ok ? o.v : undefined), 'noCatch', () => `${w.state} ${String(w.value)}`);
      else outcome(o, which);
    } else if (which === 'ifThrow') {
      const o = make(() => args), fb = make(() => [o.e, ...args]); if (fb.kind === 'pErr') fb.callee.catch(() => { }); /* a rejecting fallback promise nobody needs is the caller's */ const p = F.ifThrow(o.callee, fb.callee, ...args); w = watch(p); await finish(); desc = { which, kind: o.kind, fb: fb.kind, args }; c.last = desc; ranOnce(o);
      if (o.ok) { outcome(o, 'ifThrow'); c.ok(fb.runs === 0, 'ifThrow-fallback-run', 'fallback ran after success'); } else { ranOnce(fb); outcome(fb, 'ifThrow-fallback'); }
    } else if (which === 'deferred') {
      const d = F.deferred(); w = watch(d.promise); const ops = c.arr(1, 5, () => ({ t: c.pick(['resolve', 'reject']), v: c.pick(vals) })); await c.drain(1); c.ok(w.state === 'pending', 'deferred-early', 'settled before resolve/reject');
      for (const o of ops) { d[o.t](o.v); if (c.bool()) await c.drain(1); } await c.drain(2); desc = { which, ops }; c.last = desc;
      c.ok(ops[0].t === 'resolve' ? w.state === 'ok' && Object.is(w.value, ops[0].v) : w.state === 'err' && Object.is(w.error, ops[0].v), 'deferred', () => `first ${ops[0].t}, is ${w.state}`);
    } else if (which === 'select') {
      const cond = make(() => args), a = make(() => args, ['sync', 'throw', 'async', 'reject', 'pOk', 'value']), b = make(() => args, ['sync', 'throw', 'async', 'reject', 'pOk', 'value']);
      w = watch(F.select(cond.callee, a.callee, b.callee, ...args)); await finish(); desc = { which, cond: cond.kind, cv: cond.v, a: a.kind, b: b.kind, args }; c.last = desc; ranOnce(cond);
      if (!cond.ok) { outcome(cond, 'select-condition'); c.ok(a.runs + b.runs === 0, 'select-run', 'a branch ran after the condition failed'); }
      else { const [x, y] = cond.v ? [a, b] : [b, a]; ranOnce(x); c.ok(y.runs === 0, 'select-other', 'the branch not chosen ran'); outcome(x, 'select'); }
    } else {
      const o = make(() => args, ['sync', 'throw', 'async', 'reject', 'pOk', 'pErr']), ab = make(() => args, ['sync', 'throw', 'async', 'reject', 'pOk', 'value']);
      const [p, abort] = F.cancelExec(o.callee, ...args); w = watch(p); const hist = []; let winner = null, aborted = 0;
      if (c.bool(0.25) && ['sync', 'throw'].includes(o.kind)) { hist.push('abort-at-once'); aborted++; abort(ab.callee); winner = 'task'; ctx.stat('abort_after_sync'); } // the task has completed before it can be aborted
      else for (let s = c.int(0, 5); s--;) {
        await c.drain(1); if (!winner && w.state !== 'pending') winner = 'task';
        if (c.bool(0.4)) { hist.push('abort'); aborted++; if (aborted === 1) abort(ab.callee); else abort('again'); if (!winner) { winner = aborted === 1 ? 'abort' : winner; } } else { hist.push('settle'); pool.settleOne(); }
        if (winner === 'abort') break;
      }
      // a task that is settled before the abort call wins; one that settles while an asynchronous abort payload is pending may win too
      await finish(); desc = { which, kind: o.kind, ab: ab.kind, hist: hist.join(), args }; c.last = desc; ranOnce(o);
      if (!aborted || winner === 'task') outcome(o, 'cancelExec-task');
      else if (winner === 'abort' && ['sync', 'value', 'throw'].includes(ab.kind) && ['async', 'reject'].includes(o.kind)) { outcome(ab, 'cancelExec-abort'); ranOnce(ab); ctx.stat('aborted'); }
      else c.ok([o, ab].some(x => x.ok ? w.state === 'ok' && Object.is(w.value, x.v) : w.state === 'err' && Object.is(w.error, x.e)), 'cancelExec-any', 'outcome of neither task nor abort');
    }
    c.ev(desc); ctx.stat(which);
    if (badArgs) c.fail('args', `${which}: ${badArgs[0]} callee got ${badArgs[1].length} arguments, expected ${badArgs[2].length}`);
  });
}
