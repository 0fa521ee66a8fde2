import { load } from '../lib/bundle.mjs';
import { Pool } from '../lib/sched.mjs';
export const rule = 'arrays of 0..12 items (a few up to 1100; holes included), callback outcomes (value, true, truthy, throw, rejection, sync or async) and seeded completion orders; non-trivial: distinct function, outcomes and completion order';
export default async function (ctx) {
  const A = load('array');
  const right = n => /Right/.test(n);
  const mkArr = c => { const a = c.arr(0, c.weighted([[20, 3], [20, 8], [20, 12], [0.5, 260], [0.12, 1100]]), i => c.pick([{ i }, i, undefined, null, '', true])); if (c.bool(0.1) && a.length) delete a[c.int(0, a.length - 1)]; return a; };
  const order = (n, r) => Array.from({ length: n }, (_, i) => r ? n - 1 - i : i);
  await ctx.section('sync', ctx.n(4000), async c => {
    const name = c.pick(['each', 'eachRight', 'mapRight']), isEach = name !== 'mapRight', a = mkArr(c), b = a.slice(), idx = order(a.length, right(name));
    const outs = idx.map(() => c.weighted([[8, ['v', c.pick([undefined, false, 1, 'true', {}, null, Promise.resolve(true)])]], [isEach ? 1 : 0.5, ['v', true]], [0.5, ['t', new Error('x')]]]));
    const calls = []; let out; c.ev({ name, n: a.length, outs: outs.map(o => o[0] === 't' ? 't' : String(o[1])) });
    try { out = ['v', A[name](a, (...x) => { calls.push(x); const o = outs[calls.length - 1] || ['v']; if (o[0] === 't') throw o[1]; return o[1]; })]; } catch (e) { out = ['t', e]; }
    let k = 0; const want = []; let exp = null; for (const i of idx) { want.push(i); const o = outs[k++]; if (o[0] === 't') { exp = o; break; } if (isEach && o[1] === true) break; }
    c.eq(calls.map(x => x[1]), want, 'order'); c.ok(calls.every(x => x.length === 3 && Object.is(x[0], b[x[1]]) && x[2] === a), 'args', 'callback arguments');
    if (exp) c.ok(out[0] === 't' && out[1] === exp[1], 'error', 'the error did not propagate'); else { c.ok(out[0] === 'v', 'threw', 'threw'); if (isEach) c.ok(out[1] === undefined, 'result', 'returned something'); else c.ok(out[1].length === want.length && out[1].every((v, i) => v === outs[i][1]), 'result', 'results'); }
  });
  await ctx.section('serial', ctx.n(3000), async c => {
    const name = c.pick(['eachAsync', 'eachRightAsync', 'mapAsync', 'mapRightAsync']), isEach = /each/.test(name), a = mkArr(c), b = a.slice(), idx = order(a.length, right(name));
    const outs = idx.map(() => c.weighted([[8, ['v', c.pick([undefined, false, 1, 'true', {}, null])]], [1, ['v', true]], [0.5, ['t', new Error('x')]]]));
    const how = idx.map(() => c.pick(['sync', 'async', 'async', 'late', 'thenable'])); let open = 0, max = 0; const calls = []; c.ev({ name, outs: outs.map((o, i) => how[i] + (o[0] === 't' ? 't' : String(o[1]))) });
    let out; const p = A[name](a, (...x) => {
      const k = calls.length; calls.push(x); const o = outs[k] || ['v']; if (how[k] === 'sync') { if (o[0] === 't') throw o[1]; return o[1]; }
      open++; max = Math.max(max, open);
      if (how[k] === 'thenable') { let used = false; return { then: (r, j) => { if (used) return; used = true; let t = c.int(0, 2); const step = async () => { while (t-- > 0) await c.tick(); open--; if (o[0] === 't') j(o[1]); else r(o[1]); }; step(); } }; }
      return (async () => { for (let i = how[k] === 'late' ? c.int(1, 4) : 1; i > 0; i--) await c.tick(); open--; if (o[0] === 't') throw o[1]; return o[1]; })();
    });
    c.ok(p instanceof Promise, 'promise', 'did not return a promise');
    try { out = ['v', await p]; } catch (e) { out = ['t', e]; }
    c.ok(open === 0 || out[0] === 't', 'not-awaited', 'settled while a callback was still running'); c.ok(max <= 1, 'overlap', 'two callbacks of a serial form overlapped'); ctx.stat('serial_callbacks', calls.length);
    let k = 0; const want = []; let exp = null; for (const i of idx) { want.push(i); const o = outs[k++]; if (o[0] === 't') { exp = o; break; } if (isEach && o[1] === true) break; }
    c.eq(calls.map(x => x[1]), want, 'order'); c.ok(calls.every(x => x.length === 3 && Object.is(x[0], b[x[1]]) && x[2] === a), 'args', 'callback arguments');
    if (exp) c.ok(out[0] === 't' && out[1] === exp[1], 'error', 'the error did not propagate'); else { c.ok(out[0] === 'v', 'threw', 'rejected'); if (isEach) c.ok(out[1] === undefined, 'result', 'resolved with something'); else c.ok(out[1].length === want.length && out[1].every((v, i) => v === outs[i][1]), 'result', 'results'); }
    await c.drain(2); c.ok(calls.length === want.length, 'late-call', 'callback called after the end');
  });
  // far more items than a call stack or a 16-bit counter holds
  await ctx.section('large', ctx.n(11, 11), async (c, i) => {
    const name = ['each', 'eachRight', 'mapRight', 'eachAsync', 'eachRightAsync', 'mapAsync', 'mapRightAsync', 'mapParallel', 'eachParallel', 'mapRightParallel', 'eachRightParallel'][i % 11], n = 70001 + c.int(0, 99999), a = Array.from({ length: n }, (_, k) => k), stop = /each/.test(name) && !/Parallel/.test(name) && c.bool() ? c.int(66000, n - 1) : -1; c.ev({ name, n, stop });
    let calls = 0, bad = 0; const at = k => right(name) ? n - 1 - k : k, r = await A[name](a, (v, k) => { if (k !== at(calls) || v !== k) bad++; return calls++ === stop ? true : /map/.test(name) ? -v : undefined; });
    c.eq([calls, bad], [stop < 0 ? n : stop + 1, 0], 'order'); if (/map/.test(name)) c.ok(r.length === n && r.every((v, k) => v === -at(k)), 'result', 'results of a long array'); ctx.stat('large_callbacks', calls);
  });
  await ctx.section('parallel', ctx.n(3000), async c => {
    const name = c.pick(['eachParallel', 'eachRightParallel', 'mapParallel', 'mapRightParallel']), isEach = /each/.test(name), a = mkArr(c), b = a.slice(), idx = order(a.length, right(name));
    const kind = idx.map(() => c.weighted([[7, 'ok'], [1, 'sync'], [0.6, 'bad']])), bads = kind.filter(k => k === 'bad').length, lik = idx.map((_, k) => c.bool(0.2) && (kind[k] !== 'bad' || bads === 1)), res = idx.map((_, k) => c.pick([{ k }, k, true, undefined])), err = idx.map((_, k) => new Error('e' + k));
    const dfs = [], calls = []; let done = null;
    const p = A[name](a, (...x) => { const k = calls.length; calls.push(x); if (kind[k] === 'sync') return res[k]; const q = new Promise((r, j) => dfs.push({ k, settle: () => kind[k] === 'bad' ? j(err[k]) : r(res[k]) })); if (lik[k]) { q.catch(() => { }); return { then: (r, j) => { q.then(r, j); } }; } return q; });
    p.then(v => done = ['v', v], e => done = ['t', e]);
    c.eq(calls.map(x => x[1]), idx, 'all-started-at-once'); c.ok(calls.every(x => x.length === 3 && Object.is(x[0], b[x[1]]) && x[2] === a), 'args', 'callback arguments');
    const seq = c.shuffle(dfs); let firstBad = null;
    for (const [n, d] of seq.entries()) { if (firstBad === null && (n < 30 || n % 64 === 0 || n === seq.length - 1)) { await c.drain(1); c.ok(!done, 'early', 'settled before every callback finished'); } d.settle(); if (kind[d.k] === 'bad') firstBad ??= d.k; }
    await c.drain(2); c.ev({ name, kind, seq: seq.map(d => d.k) });
    c.ok(done, 'pending', 'never settled'); if (firstBad !== null) c.ok(done[0] === 't' && done[1] === err[firstBad], 'error', 'the first rejection did not propagate'); else { c.ok(done[0] === 'v', 'threw', 'rejected'); if (isEach) c.ok(done[1] === undefined, 'result', 'resolved with something'); else c.ok(done[1].length === idx.length && done[1].every((v, i) => v === res[i]), 'result', 'results are not in callback order'); }
    c.eq(calls.length, idx.length, 'calls');
  });
}
