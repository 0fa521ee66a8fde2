import vm from 'node:vm';
import fs from 'node:fs';
import path from 'node:path';
import { load, buildEntry, REPO } from '../lib/bundle.mjs';
export const rule = 'every scheduling mechanism nextTick can find, with random trees of callbacks that schedule further callbacks, throw and race timers; random populations of pending, fired and cleared timers with numeric handles; every order of magnitude of durations in several time zones; non-trivial: distinct script';
export const assumptions = ['the platform mechanisms are stand-ins that keep their documented order (task queue, microtask queue, mutation records delivered once per microtask checkpoint, errors reported without stopping later tasks)', 'clearTimeoutAll is checked where timer handles are increasing numbers (browsers); Node clears by object'];
const MECH = ['process', 'queueMicrotask', 'MutationObserver', 'WebKitMutationObserver', 'setImmediate', 'setTimeout'];
export default async function (ctx) {
  const src = f => fs.readFileSync(buildEntry('f11_' + f, `export { default } from ${JSON.stringify(path.join(REPO, 'packages/function/src/timeout', f + '.ts'))};`), 'utf8');
  const tickCode = src('nextTick'), clearCode = src('clearTimeoutAll');
  /** a small event loop: microtasks before tasks, errors collected */
  function world(mechs) {
    const micro = [], tasks = [], errors = []; let now = 0, id = 0; const timers = new Map();
    const g = { module: { exports: {} }, exports: {}, console }; g.exports = g.module.exports;
    const run = f => { try { f(); } catch (e) { errors.push(e); } };
    const setT = (f0, ms = 0, ...xs) => { const f = () => f0(...xs); const k = ++id; timers.set(k, { f, at: now + Math.max(0, +ms || 0), k }); return k; }, clearT = k => { timers.delete(k); };
    const OBS = tag => `(class ${tag} { constructor(cb) { this.cb = cb; } observe(node, o) { if (o && o.characterData) node.watch(this.cb); } })`;
    vm.createContext(g);
    if (mechs.includes('process')) g.process = { nextTick: (f, ...xs) => { micro.push(() => f(...xs)); } };
    for (const k of ['queueMicrotask', 'MutationObserver', 'WebKitMutationObserver', 'setImmediate', 'setTimeout']) { delete g[k]; }
    if (mechs.includes('queueMicrotask')) g.queueMicrotask = f => { micro.push(f); };
    if (mechs.includes('MutationObserver')) g.MutationObserver = vm.runInContext(OBS('MutationObserver'), g);
    if (mechs.includes('WebKitMutationObserver')) g.WebKitMutationObserver = vm.runInContext(OBS('WebKitMutationObserver'), g);
    if (mechs.some(m => /Observer/.test(m))) g.document = { createTextNode: t => { let v = String(t), cb, due = false; return { get data() { return v; }, set data(x) { v = String(x); if (cb && !due) { due = true; micro.push(() => { due = false; cb(); }); } }, watch(f) { cb = f; } }; } };
    if (mechs.includes('setImmediate')) g.setImmediate = (f, ...xs) => { tasks.push(() => f(...xs)); };
    if (mechs.includes('setTimeout')) { g.setTimeout = setT; g.clearTimeout = clearT; }
    const checkpoint = () => { let n = 0; while (micro.length) { if (++n > 1e5) throw new Error('endless microtasks'); run(micro.shift()); } };
    const loop = () => { for (let n = 0; ; n++) { checkpoint(); if (tasks.length) { run(tasks.shift()); continue; } const t = [...timers.values()].sort((a, b) => a.at - b.at || a.k - b.k)[0]; if (!t) return; if (n > 1e5) throw new Error('endless'); timers.delete(t.k); now = t.at; run(t.f); } };
    return { g, setT, clearT, timers, errors, checkpoint, loop, advance(to) { for (; ;) { checkpoint(); const t = [...timers.values()].filter(t => t.at <= to).sort((a, b) => a.at - b.at || a.k - b.k)[0]; if (!t) { now = to; return; } timers.delete(t.k); now = t.at; run(t.f); } } };
  }
  await ctx.section('nextTick', ctx.n(3000), async c => {
    const first = c.int(0, MECH.length - 1), m = [MECH[first], ...MECH.slice(first + 1).filter(() => c.bool())], w = world(m); vm.runInContext(tickCode, w.g); const tick = w.g.module.exports.default;
    const want = [], got = []; let seq = 0, sync = false, size = 0, thrown = 0; const queue = [];
    const plan = d => ({ id: 0, kids: d > 0 && size < 40 ? c.arr(0, c.pick([0, 1, 3]), () => (size++, plan(d - 1))) : [], bad: c.bool(0.15), late: c.bool(0.2) }), roots = c.arr(1, c.pick([1, 2, 6]), () => plan(3)); c.ev([m, JSON.stringify(roots)]);
    // submission order is the order callbacks have to run in
    const submit = p => { const me = seq++; want.push(me); const r = (sync = true, tick(function () { c.ok(!sync, 'synchronous', 'a callback ran inside nextTick'); c.ok(arguments.length === 0, 'arguments', 'the callback got arguments'); got.push(me); for (const k of p.kids) if (!k.late) submit(k); if (p.kids.some(k => k.late) && m.includes('setTimeout')) w.setT(() => { p.kids.filter(k => k.late).forEach(submit); }, 1); if (p.bad) { thrown++; throw new Error('from ' + me); } })); sync = false; c.ok(r === undefined, 'returns', 'nextTick returned something'); };
    let timerRan = -1; if (first < 4 && m.includes('setTimeout')) w.setT(() => { timerRan = got.length; }, 0);
    for (const p of roots) submit(p); c.eq(got, [], 'early'); w.checkpoint(); const after = got.length, wantNow = want.length; if (first < 4) c.eq(after, wantNow, 'microtask', { m });
    w.loop(); c.eq(got, want, 'order', { m, roots: JSON.stringify(roots) }); c.eq(w.errors.length, thrown, 'errors'); if (timerRan >= 0) c.ok(timerRan >= wantNow, 'before-timers', 'a timer ran before a tick');
    ctx.stat('ticks', got.length); ctx.stat('via_' + MECH[first]);
  });
  // long queues, long chains
  await ctx.section('nextTick-many', ctx.n(144), async (c, i) => {
    const first = i % MECH.length, n = [33, 64, 65, 129, 512, 1000, 1023, 1024, 1025, 2049, 5000, 9000][Math.floor(i / MECH.length) % 12], m = MECH.slice(first), w = world(m); vm.runInContext(tickCode, w.g); const tick = w.g.module.exports.default, got = [], want = []; c.ev([m, n]);
    for (let k = 0; k < n; k++) { want.push(k); tick(() => { got.push(k); if (k % 100 === 7) { tick(() => got.push('c' + k)); } if (k % 500 === 3 && i % 144 < 72) throw new Error('x'); }); } for (let k = 0; k < n; k++) if (k % 100 === 7) want.push('c' + k); w.loop(); c.ok(got.length === want.length && got.every((x, k) => x === want[k]), 'order', () => `${got.length} of ${want.length} callbacks ran, or in another order, via ${MECH[first]}`);
    const chain = []; const go = k => { chain.push(k); if (k < n) tick(() => go(k + 1)); }; go(0); w.loop(); c.ok(chain.length === n + 1, 'chain', () => `a chain of ${n} ended after ${chain.length}`); ctx.stat('long_queues', n);
  });
  await ctx.section('clearTimeoutAll-many', ctx.n(10), async (c, i) => {
    const w = world(['setTimeout']); w.g.setTimeout = w.setT; vm.runInContext(clearCode, w.g); const clearAll = w.g.module.exports.default, n = [100, 1000, 1024, 5000, 10001, 20000, 33000, 66000, 3, 12345][i % 10]; let fired = 0; for (let k = 0; k < n; k++) w.setT(() => fired++, k % 50); c.ev(n, 'many' + n); const r = clearAll(); c.eq(w.timers.size, 0, 'still-pending'); c.ok(r > n, 'last-id', () => `returned ${r} after ${n} timers`); w.setT(() => fired += 1e6, 1); w.loop(); c.eq(fired, 1e6, 'later-timers'); ctx.stat('cleared', n);
  });
  await ctx.section('clearTimeoutAll', ctx.n(2000), async c => {
    const w = world(['setTimeout']); w.g.setTimeout = w.setT; vm.runInContext(clearCode, w.g); const clearAll = w.g.module.exports.default; const fired = [], live = new Map(); let n = 0; const log = [];
    const add = ms => { const k = ++n, id = w.setT(() => { fired.push(k); live.delete(k); }, ms); live.set(k, id); };
    for (let i = c.int(1, 12); i > 0; i--) {
      const op = c.pick(['add', 'add', 'add', 'clear', 'run', 'all']); log.push(op); if (op === 'add') add(c.int(0, 50)); else if (op === 'clear' && live.size) { const k = c.pick([...live.keys()]); w.clearT(live.get(k)); live.delete(k); } else if (op === 'run') w.advance(c.int(0, 60) + i);
      else { const ids = [...live.values()], r = clearAll(); c.ok(Number.isInteger(r) && ids.every(x => x < r), 'last-id', () => `returned ${r} with handles ${ids}`); live.clear(); c.eq(w.timers.size, 0, 'still-pending', log); ctx.stat('cleared', ids.length); }
    }
    c.ev(log); const before = fired.length, left = [...live.keys()]; w.loop(); c.eq(fired.slice(before).sort((a, b) => a - b), left, 'later-timers');
  });
  const zones = ['UTC', 'Asia/Shanghai', 'America/New_York', 'Africa/Khartoum', 'Australia/Lord_Howe', 'Asia/Kathmandu', 'Pacific/Apia', 'America/St_Johns'], tz = process.env.TZ;
  for (const z of zones) {
    process.env.TZ = z; const { timeoutLog } = load('function'); const p = (n, k = 2) => String(n).padStart(k, '0');
    try {
      await ctx.section('timeoutLog-' + z, ctx.n(400), async c => {
        const out = [], keep = console.log; const run = (...a) => { console.log = (...x) => out.push(x); try { return timeoutLog(...a); } finally { console.log = keep; } };
        const unit = c.pick([1, 1, 1000, 6e4, 36e5, 864e5]), ms = c.bool(0.1) ? c.pick([0, 999, 1000, 864e5 - 1, 864e5, 864e5 + 1, 2 ** 31 - 1]) : Math.min(unit * c.int(0, Math.min(1e6, Math.floor((2 ** 31 - 1) / unit))) + (c.bool(0.4) ? c.int(0, 999) : 0), 2 ** 31 - 1), t = c.pick([undefined, undefined, '{}', 'a {} b {} {', '还有{}', 'none', '$&{}$1', '{}{}', '']); c.ev([z, ms, t]);
        const d = Math.floor(ms / 864e5), clock = [36e5 * 24, 36e5, 6e4].map((u, i, s) => p(Math.floor(ms % u / (s[i + 1] || 1000)))).join(':'), frac = ms % 1000 ? '.' + p(ms % 1000, 3) : '';
        const text = ms < 1000 ? ms + 'ms' : d ? d + '天' + (clock + frac === '00:00:00' ? '' : ' ' + clock + frac) : clock + frac, r = t === undefined ? run(ms) : run(ms, t); c.ok(r === undefined, 'returns', 'timeoutLog returned something'); c.eq(out, [[(t ?? '等待 {}').split('{}').join(text)]], 'text', { ms, z });
        out.length = 0; c.throws(() => run(c.pick([-1, 1.5, NaN, Infinity, 2 ** 31, 2 ** 40, '5', null, {}])), 'invalid', e => e instanceof TypeError); c.eq(out, [], 'invalid-print');
      });
    } finally { if (tz === undefined) delete process.env.TZ; else process.env.TZ = tz; }
  }
}
