import cp from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
import { EventEmitter } from 'node:events';
import { load, scratch } from '../lib/bundle.mjs';
export const rule = 'random process trees (also real ones), seeded order and chunking of the listings, vanishing and forbidden processes; every signal recorded by a stand-in for process.kill; non-trivial: distinct (tree, signal, faults)';
export const assumptions = ['process.kill is a recorder: no signal of the code under test reaches a process', 'children are listed with ps --ppid, which the stand-in answers from the tree; real trees are listed by the real ps'];
export default async function (ctx) {
  const base = path.join(scratch(), 'k01'); fs.mkdirSync(base); fs.chmodSync(base, 0o777);
  const realKill = process.kill, realSpawn = cp.spawn, realExec = cp.exec, realPlatform = process.platform; let execs = null, onKill, table = null, open = [];
  process.kill = (pid, sig) => onKill(pid, sig);
  cp.spawn = (cmd, args, o) => {
    if (execs) { execs.push({ args: [cmd, ...args], done: () => { } }); throw new Error('no listing here'); }
    if (!table || cmd !== lister) return realSpawn(cmd, args, o);
    if (cmd === 'pgrep') { if (args.length !== 2 || args[0] !== '-P') throw new Error('pgrep is called with ' + args); args = ['--ppid', args[1]]; }
    const i = args.indexOf('--ppid'), ppid = i >= 0 ? Number(args[i + 1]) : Number((args.find(x => x.startsWith('--ppid=')) ?? '=').split('=')[1]);
    const e = new EventEmitter(); e.stdout = new EventEmitter(); e.stderr = new EventEmitter(); e.stdin = { end() { } }; e.pid = 1e6; e.kill = () => true; e.stdout.setEncoding = e.stdout.resume = () => { };
    open.push({ e, ppid }); return e;
  };
  // taskkill, as the Windows branch runs it through a shell
  cp.exec = (cmd, o, cb) => { if (!execs) return realExec(cmd, o, cb); const e = new EventEmitter(); e.stdout = new EventEmitter(); e.stderr = new EventEmitter(); execs.push({ args: cmd.split(/ +/), done: (...r) => (cb ?? (typeof o === 'function' ? o : () => { }))(...r) }); return e; };
  const as = p => { Object.defineProperty(process, 'platform', { value: p, configurable: true }); try { return load('os'); } finally { Object.defineProperty(process, 'platform', { value: realPlatform, configurable: true }); } };
  const linux = load('os'), darwin = as('darwin'), win = as('win32'), others = ['freebsd', 'aix', 'sunos'].map(as), { asyncKill } = linux; let lister = 'ps'; ctx.unprivileged();
  const SIG = [undefined, 'SIGTERM', 'SIGKILL', 'SIGINT', 'SIGUSR1', 9, 15, 0];
  function genTree(c, shape) {
    const n = c.weighted([[60, c.pick([1, 2, 3, 5, 9, 30])], [1, c.pick([65, 130, 300])]]), pids = []; while (pids.length < n) { const p = c.pick([() => c.int(2, 50), () => c.int(2, 99999), () => c.int(4194000, 4194304)])(); if (!pids.includes(p)) pids.push(p); }
    const kids = new Map(pids.map(p => [p, []])), par = new Map();
    pids.forEach((p, i) => { if (!i) return; const q = shape === 0 ? pids[i - 1] : shape === 1 ? pids[0] : pids[c.int(0, i - 1)]; kids.get(q).push(p); par.set(p, q); });
    return { root: pids[0], pids, kids, par };
  }
  async function answer(c) {
    // listings answer in any order, in chunks cut anywhere
    let steps = 0;
    while (open.length) {
      if (steps++ > 5000) c.fail('listing', 'listings never end');
      const i = c.int(0, open.length - 1), o = open[i];
      if (o.text === undefined) { const k = table.kids.get(o.ppid) ?? []; ctx.stat('listings'); o.code = k.length ? 0 : 1; o.text = k.map(p => String(p).padStart(c.pick([1, 5, 7])) + '\n').join(''); }
      if (o.text.length && !c.bool(0.5)) { const n = c.bool() ? c.int(1, 3) : o.text.length; o.e.stdout.emit('data', Buffer.from(o.text.slice(0, n))); o.text = o.text.slice(n); }
      else if (!o.exited && c.bool(0.15)) { o.exited = true; o.e.emit('exit', o.code, null); }
      else if (!o.text.length) { open.splice(i, 1); if (!o.exited) o.e.emit('exit', o.code, null); o.e.stdout.emit('end'); o.e.emit('close', o.code, null); }
      if (c.bool(0.2)) await c.drain();
    }
    await c.drain();
  }
  const esrch = () => Object.assign(new Error('kill ESRCH'), { code: 'ESRCH', errno: -3 }), eperm = () => Object.assign(new Error('kill EPERM'), { code: 'EPERM', errno: -1 });
  const FAULTS = [['EPERM', eperm], ['EINVAL', () => Object.assign(new Error('kill EINVAL'), { code: 'EINVAL', errno: -22 })], ['ERR_UNKNOWN_SIGNAL', () => Object.assign(new TypeError('Unknown signal: X'), { code: 'ERR_UNKNOWN_SIGNAL' })], [undefined, () => new Error('refused')]];
  await ctx.section('tree', ctx.n(4000, 15), async (c, i) => {
    const [code, failure] = FAULTS[i % FAULTS.length];
    const t = genTree(c, c.int(0, 3)), sig = c.pick(SIG), mac = c.bool(0.3), { kill, asyncKill } = mac ? darwin : linux, gone = new Set(c.bool(0.3) ? c.subset(t.pids) : []), deny = c.bool(0.2) ? c.pick(t.pids) : null, log = [], back = []; table = t; open = []; lister = mac ? 'pgrep' : 'ps';
    const fault = deny !== null && !gone.has(deny); c.ev([mac, t.pids, [...t.par], sig, [...gone], deny]);
    onKill = (p, s) => { log.push([p, s]); if (gone.has(p)) throw esrch(); if (p === deny) throw failure(); return true; };
    const form = c.int(0, 3), pid = c.bool(0.3) ? String(t.root) : t.root; let got, cb = e => back.push(e);
    if (form === 0) { got = asyncKill(pid, sig); got.then(cb, e => back.push(['rejected', e])); } else if (form === 1 && sig === undefined) kill(pid, cb); else kill(pid, sig, cb);
    c.eq(log.length, 0, 'early'); await answer(c); table = null; lister = 'ps';
    const count = new Map(); for (const [p, s] of log) { count.set(p, (count.get(p) ?? 0) + 1); c.eq(s, sig, 'signal'); c.ok(typeof p === 'number' && t.kids.has(p), 'stray', () => `process ${p} is signalled, which is not in the tree of ${t.root}`); }
    for (const [p, n] of count) c.ok(n === 1, 'twice', () => `process ${p} is signalled ${n} times`);
    if (!fault) for (const p of t.pids) c.ok(count.has(p), 'missed', () => `process ${p} of the tree is not signalled`);
    const at = p => log.findIndex(x => x[0] === p); if (!fault) for (const k of t.kids.get(t.root)) c.ok(at(k) < at(t.root), 'order', () => `root ${t.root} is signalled before its child ${k}`);
    c.eq(back.length, 1, 'callback-count'); if (fault) c.ok(back[0] instanceof Error && back[0].code === code, 'failure-hidden', () => `a failure (${code}) to signal ${deny} is reported as ${back[0]}`); else c.eq(back[0], undefined, 'callback-error', [...gone]);
    ctx.stat('signals', log.length); ctx.statMax('largest', t.pids.length); ctx.stat('vanished', gone.size);
  });
  // the children of a process cannot be listed (no such program, no more processes): nothing is signalled, the failure is reported once
  await ctx.section('listing-fails', ctx.n(400, 10), async c => {
    const t = genTree(c, c.int(0, 3)), mac = c.bool(0.3), { kill, asyncKill } = mac ? darwin : linux, sig = c.pick(SIG), log = [], back = [], failAt = c.pick(t.pids), err = Object.assign(new Error('spawn ENOENT'), { code: c.pick(['ENOENT', 'EAGAIN', 'EACCES']) }); table = t; open = []; lister = mac ? 'pgrep' : 'ps'; onKill = (p, s) => { log.push([p, s]); return true; };
    const cb = e => back.push(e), form = c.int(0, 1), early = c.bool(), stray = [], on = e => stray.push(e); c.ev([mac, t.pids, [...t.par], failAt, err.code, form, early]); if (form) kill(t.root, sig, cb); else asyncKill(t.root, sig).then(cb, e => back.push(['rejected', e])); let steps = 0;
    process.on('uncaughtException', on); try {
      while (open.length && steps++ < 3000) {
        const k = open.findIndex(o => o.ppid === failAt), i = early && k >= 0 ? k : c.int(0, open.length - 1), [o] = open.splice(i, 1), kids = t.kids.get(o.ppid) ?? [];
        if (o.ppid === failAt) { c.ok(o.e.listenerCount('error') > 0, 'failure-thrown', () => `nothing waits for a failure of ${lister}, it ends the program`); o.e.emit('error', err); await c.drain(); o.e.emit('close', -2, null); ctx.stat('failed_listings'); }
        else { if (kids.length) o.e.stdout.emit('data', Buffer.from(kids.join('\n') + '\n')); o.e.emit('exit', kids.length ? 0 : 1, null); o.e.emit('close', kids.length ? 0 : 1, null); } if (c.bool(0.3)) await c.drain();
      } await c.drain();
    } finally { process.off('uncaughtException', on); table = null; lister = 'ps'; }
    c.eq(stray.length, 0, 'thrown', String(stray[0])); c.eq(log, [], 'partial-kill'); c.eq(back.length, 1, 'callback-count'); const e = back[0]?.[0] === 'rejected' ? back[0][1] : back[0]; c.ok(e === err || e?.cause === err, 'failure-hidden', () => `a failed listing is reported as ${String(back[0])}`);
  });
  await ctx.section('two-at-once', ctx.n(300, 10), async c => {
    const a = genTree(c, 2), b = genTree(c, 2); for (const p of b.pids) if (a.kids.has(p)) return;
    table = { kids: new Map([...a.kids, ...b.kids]) }; open = []; const log = [], back = []; onKill = (p, s) => { log.push([p, s]); return true; }; c.ev([a.pids, b.pids]);
    const { kill } = linux; kill(a.root, 'SIGTERM', e => back.push(['a', e])); kill(b.root, 'SIGKILL', e => back.push(['b', e])); await answer(c); table = null;
    c.eq(log.map(String).sort(), [...a.pids.map(p => p + ',SIGTERM'), ...b.pids.map(p => p + ',SIGKILL')].sort(), 'two-trees'); c.eq(back.map(String).sort(), ['a,', 'b,'], 'two-callbacks');
  });
  await ctx.section('invalid', ctx.n(200, 4), async c => {
    const { kill, asyncKill } = c.pick([linux, linux, darwin, win, others[0]]); execs = []; const bad = c.pick([-1, -5, 1.5, NaN, Infinity, 'abc', '1a', '-3', {}, undefined, 2 ** 53, () => 1, '12 13', '1.5']); let called = 0, listed = 0; table = { kids: new Map() }; open = []; onKill = () => { called++; return true; }; c.ev(String(bad));
    const e = []; if (c.bool()) { let err; try { kill(bad, ...c.pick([[], ['SIGTERM']])); } catch (x) { err = x; } c.ok(err instanceof Error, 'invalid-accepted', () => `kill(${String(bad)}) does not throw`); } else if (c.bool()) { kill(bad, 'SIGTERM', x => e.push(x)); c.ok(e.length === 1 && e[0] instanceof Error, 'invalid-accepted'); } else { const x = await Promise.race([asyncKill(bad, 'SIGTERM').catch(x => x), new Promise(r => setTimeout(() => r('none'), 200))]); c.ok(x instanceof Error, 'invalid-accepted', () => `asyncKill(${String(bad)}) gives ${String(x)}`); }
    listed = open.length + execs.length; execs = null; table = null; open = []; await c.drain(); c.eq([called, listed], [0, 0], 'invalid-signalled');
  });
  // real processes, listed by the real ps; the signals are still only recorded
  await ctx.section('real', ctx.n(12, 5), async c => {
    table = null; const depth = c.int(0, 3), spec = d => d <= 0 ? 'sleep 30' : Array.from({ length: c.int(1, 3) }, () => c.bool() ? `sleep 30 &` : `sh -c '${spec(0)} & wait' &`).join(' ') + (c.bool() ? ` sh -c "sleep 31 & ${d > 1 ? "sleep 32 & sh -c 'sleep 33 & sleep 34 & wait' &" : ''} wait" &` : '') + ' wait', script = spec(depth); c.ev(script);
    const p = realSpawn('sh', ['-c', script], { detached: true, stdio: 'ignore', cwd: base });
    try {
      const read = () => { const kids = new Map(); for (const n of fs.readdirSync('/proc')) if (/^\d+$/.test(n)) { try { const st = fs.readFileSync(`/proc/${n}/stat`, 'utf8'), pp = Number(st.slice(st.lastIndexOf(')') + 2).split(' ')[1]); (kids.get(pp) ?? kids.set(pp, []).get(pp)).push(Number(n)); } catch { } } const all = []; (function walk(x) { all.push(x); (kids.get(x) ?? []).forEach(walk); })(p.pid); return all.sort((a, b) => a - b); };
      let prev = '', all = [], calm = 0; for (let k = 0; k < 200 && calm < 4; k++) { await new Promise(r => setTimeout(r, 25)); all = read(); calm = String(all) === prev ? calm + 1 : 0; prev = String(all); }
      const log = []; onKill = (q, s) => { log.push(q); return true; }; const err = await asyncKill(p.pid, 'SIGTERM'); if (String(read()) !== prev) return;
      c.eq(err, undefined, 'real-error'); c.eq(log.slice().sort((a, b) => a - b), all, 'real-tree'); ctx.stat('real_processes', all.length);
    } finally { try { realKill.call(process, -p.pid, 'SIGKILL'); } catch { } }
  });
  // without callback, a process that cannot be signalled, and the other systems
  await ctx.section('windows', ctx.n(200, 5), async c => {
    const pid = c.pick([1, 42, c.int(2, 99999), 4294967295]), err = c.bool(0.4) ? Object.assign(new Error('Command failed'), { code: c.pick([1, 128]) }) : null, back = [], form = c.int(0, 3); execs = []; onKill = () => { throw new Error('signalled'); }; c.ev([pid, !!err, form]);
    const arg = c.bool(0.3) ? String(pid) : pid, cb = e => back.push(e); if (form === 0) win.kill(arg); else if (form === 1) win.kill(arg, cb); else if (form === 2) win.kill(arg, 'SIGTERM', cb); else win.asyncKill(arg, c.pick([undefined, 9])).then(cb, e => back.push(['rejected', e]));
    const runs = execs; await c.drain(); c.eq(runs.length, 1, 'taskkill-runs'); const [name, ...a] = runs[0].args, i = a.findIndex(x => /^\/PID$/i.test(x)); c.ok(/^taskkill(\.exe)?$/i.test(name) && i >= 0 && a.length === 4, 'taskkill', () => `runs ${runs[0].args.join(' ')}`); c.eq([a[i + 1], ...a.filter((_, k) => k !== i && k !== i + 1).map(x => x.toUpperCase()).sort()], [String(pid), '/F', '/T'], 'taskkill-args', runs[0].args);
    c.eq(back.length, 0, 'taskkill-early'); runs[0].done(err, '', ''); await c.drain(); execs = null; c.eq(back.length, form ? 1 : 0, 'taskkill-callback'); if (form) c.ok(back[0] === err || !err && back[0] === undefined, 'taskkill-error', () => `calls back with ${String(back[0])}`);
  });
  await ctx.section('other-systems', ctx.n(30, 4), async c => {
    const m = c.pick(others), pid = c.int(2, 99999); let n = 0; execs = []; table = { kids: new Map() }; onKill = () => { n++; return true; }; c.ev(pid); let e; if (c.bool()) { try { m.kill(pid, 'SIGTERM', ...c.pick([[], [() => { }]])); } catch (x) { e = x; } } else e = await m.asyncKill(pid).then(() => null, x => x);
    c.ok(e instanceof Error, 'system', 'a system that is not supported is accepted'); c.eq([n, execs.length, open.length], [0, 0, 0], 'system-signalled'); execs = table = null;
  });
  await ctx.section('no-callback', ctx.n(200, 5), async c => {
    const t = genTree(c, 2), deny = c.bool(0.4) ? c.pick(t.pids) : null, { kill } = linux, log = [], thrown = []; table = t; open = []; c.ev([t.pids, deny]); onKill = p => { log.push(p); if (p === deny) throw eperm(); return true; };
    const hold = e => thrown.push(e); process.on('uncaughtException', hold); process.on('unhandledRejection', hold); try { kill(t.root, ...c.pick([[], ['SIGTERM'], [9]])); try { await answer(c); } catch (e) { thrown.push(e); } await c.drain(); } finally { process.off('uncaughtException', hold); process.off('unhandledRejection', hold); table = null; open = []; }
    if (deny === null) { c.eq(thrown.map(String), [], 'threw'); c.eq(log.slice().sort((a, b) => a - b), t.pids.slice().sort((a, b) => a - b), 'no-callback-tree'); } else c.ok(thrown.length === 1 && thrown[0].code === 'EPERM', 'failure-lost', () => `a failure to signal ${deny} without callback gives ${thrown}`);
  });
  process.kill = realKill; cp.spawn = realSpawn; cp.exec = realExec;
}
