import fs from 'node:fs';
import path from 'node:path';
import cp from 'node:child_process';
import { load, scratch } from '../lib/bundle.mjs';
import { VClock } from '../lib/sched.mjs';
import { settleFds, openFds } from '../lib/tree.mjs';
export const rule = 'children that follow a script of writes, pauses, split characters, forked writers, exits and signals, alone and many at once; the result compared with what the script does; non-trivial: distinct (script, options)';
export const assumptions = ['children are a perl interpreter of the scripts, run as an unprivileged user'];
// ops: o<n>:<hex> write the hex n times; e…; p<ms> pause; f<ms>:<hex> fork a writer to stdout that outlives the child; x<code>; k<signal>; c1/c2 close; i echo stdin until its end
const DOER = `#!/usr/bin/perl
use strict; $|=1; binmode STDOUT; binmode STDERR;
sub out { my ($fh,$d)=@_; my $o=0; while($o<length $d){ my $w=syswrite($fh,$d,length($d)-$o,$o); exit 99 unless defined $w; $o+=$w; } }
for my $op (@ARGV) {
  if ($op =~ /^([oe])(\\d+):(.*)$/) { out($1 eq 'o' ? *STDOUT : *STDERR, pack('H*',$3) x $2); }
  elsif ($op =~ /^p(\\d+)$/) { select(undef,undef,undef,$1/1000); }
  elsif ($op =~ /^f(\\d+):(.*)$/) { my $p=fork(); if(!$p){ select(undef,undef,undef,$1/1000); out(*STDOUT,pack('H*',$2)); require POSIX; POSIX::_exit(0); } }
  elsif ($op =~ /^x(\\d+)$/) { exit $1; }
  elsif ($op =~ /^k(\\w+)$/) { kill $1, $$; sleep 5; }
  elsif ($op eq 'c1') { close STDOUT; } elsif ($op eq 'c2') { close STDERR; }
  elsif ($op eq 'i') { my $b; while (sysread(STDIN,$b,4096)) { out(*STDOUT,$b); } }
}
`;
export default async function (ctx) {
  const { spawn, exec, sleep } = load('process');
  const base = path.join(scratch(), 'p02'); fs.mkdirSync(base); fs.chmodSync(base, 0o777);
  const doer = path.join(base, 'doer'); fs.writeFileSync(doer, DOER); fs.chmodSync(doer, 0o755); ctx.unprivileged(); process.chdir(base);
  const hex = b => Buffer.from(b).toString('hex'), fds = openFds();
  const TEXT = ['a', 'line\n', ' ', '\n', '中文', '😀', 'é', '\u00a0', '\ufeff', 'x '.repeat(50), '\t', '\0', '\r\n', '0'];
  function script(c, { big = true } = {}) {
    const ops = [], o = [], e = []; let late = [];
    for (let k = c.int(0, 6); k > 0; k--) {
      const w = c.int(0, 9), err = c.bool(0.35), dst = err ? e : o, l = err ? 'e' : 'o';
      if (w < 5) { const b = Buffer.from(c.pick(TEXT)), n = c.pick(big ? [1, 1, 2, 7, 700, 30000] : [1, 2]); ops.push(`${l}${n}:${hex(b)}`); dst.push(Buffer.concat(Array(n).fill(b))); }
      else if (w === 5) { const b = Buffer.from([c.int(0, 255), c.int(0, 255), 0xff]); ops.push(`${l}1:${hex(b)}`); dst.push(b); }
      else if (w === 6) { const b = Buffer.from(c.pick(['中文', '😀😀', 'éé'])); for (const x of b) { ops.push(`${l}1:${hex([x])}`); if (c.bool(0.3)) ops.push('p2'); } dst.push(b); }
      else if (w === 7) ops.push(`p${c.int(1, 8)}`);
      else if (w === 8 && !late.length) { const b = Buffer.from(c.pick(['late', ' late 中\n', 'L'.repeat(3000)])); ops.push(`f${c.int(15, 40)}:${hex(b)}`); late.push(b); }
    }
    let status = 0, signal = null; const end = c.int(0, 9);
    if (end < 3) { status = c.pick([1, 2, 3, 42, 127, 128, 137, 255]); ops.push('x' + status); } else if (end < 5) { signal = 'SIG' + c.pick(['TERM', 'KILL', 'INT', 'USR1', 'HUP']); status = null; ops.push('k' + signal.slice(3)); }
    // a forked writer only has a fixed place when nothing is written after it by the parent with a pause
    if (late.length && ops.some(x => x[0] === 'p' || x.startsWith('o'))) { const i = ops.findIndex(x => x[0] === 'f'), f = ops.splice(i, 1)[0], at = status === 0 && signal === null ? ops.length : ops.length - 1; ops.splice(at, 0, f); }
    return { ops, o: Buffer.concat([...o, ...late]), e: Buffer.concat(e), status, signal };
  }
  const shown = (b, text) => text ? b.toString().trim() : b;
  const brief = x => x === null ? 'null' : typeof x === 'string' ? `text of ${x.length}: ${JSON.stringify(x.slice(0, 40))}` : Buffer.isBuffer(x) ? `${x.length} bytes ${x.subarray(0, 20).toString('hex')}` : String(x);
  const same = (a, b) => a === b || Buffer.isBuffer(a) && Buffer.isBuffer(b) && a.equals(b);
  function judge(c, r, s, opts, want) {
    for (const k of ['stdout', 'stderr']) c.ok(same(r[k], want[k]), k, () => `${k} of a child that ran ${s.ops.map(x => x.slice(0, 30)).join(' ')} with ${JSON.stringify(opts)} is ${brief(r[k])}, expected ${brief(want[k])}`);
    c.eq([r.status, r.signal], [s.status, s.signal], 'exit', { ops: s.ops });
  }
  const OPT = () => [undefined, {}, { isToString: true }, { isToString: false }, { isToString: false, stdio: 'pipe' }, { stdio: 'pipe' }, { stdio: null }, { stdio: 'ignore' }, { stdio: ['ignore', 'pipe', 'ignore'] }, { stdio: ['ignore', 'ignore', 'pipe'] }, { stdio: ['pipe', 'pipe', 'pipe'] }, { stdio: ['ignore', null, undefined], isToString: false }, { stdio: ['ignore', undefined, null] }, { stdio: ['ignore'] }, { stdio: ['ignore', 'pipe', 'FILE'] }, { stdio: ['ignore', 'FILE', 'pipe'] }];
  const piped = (o, fd) => { const s = o?.stdio; if (s == null || s === 'pipe') return true; if (Array.isArray(s)) return s[fd] == null || s[fd] === 'pipe'; return false; };
  const wanted = (s, o) => ({ stdout: piped(o, 1) ? shown(s.o, o?.isToString ?? true) : null, stderr: piped(o, 2) ? shown(s.e, o?.isToString ?? true) : null });
  async function one(c, s, o, viaShell) {
    let fd, file; const opts = o && { ...o };
    if (Array.isArray(o?.stdio)) opts.stdio = o.stdio.map(x => x === 'FILE' ? (file = path.join(base, 'f' + c.label.replace(/\W/g, '') + Math.random().toString(36).slice(2)), fd = fs.openSync(file, 'w')) : x);
    const p = spawn(doer, s.ops, viaShell ? { ...opts, shell: true } : opts);
    const r = await p;
    judge(c, r, s, o, wanted(s, o));
    if (file) { const i = o.stdio.indexOf('FILE'), b = fs.readFileSync(file); c.ok(b.equals(i === 1 ? s.o : s.e), 'redirected', 'output redirected to a descriptor is not complete there when spawn resolves'); fs.closeSync(fd); fs.unlinkSync(file); }
    ctx.stat('children'); ctx.stat('bytes', s.o.length + s.e.length); return r;
  }
  await ctx.section('one', ctx.n(450, 12), async c => {
    const s = script(c), o = c.pick(OPT()), viaShell = s.signal === null && c.bool(0.3); c.ev([s.ops.map(x => x.slice(0, 60)), o, viaShell]); const r = await one(c, s, o, viaShell);
    if (!viaShell) { c.eq(r.cmd, doer, 'cmd'); c.eq(r.args, s.ops, 'args'); }
  });
  // long outputs in many pieces
  await ctx.section('long', 3, async (c, i) => {
    const s = [{ ops: [`o2000:${hex(Buffer.alloc(4096, 'ab'))}`, `o7000:${hex(Buffer.alloc(8000, 'é'))}`, 'x3'], o: Buffer.concat([Buffer.alloc(2000 * 4096, 'ab'), Buffer.alloc(7000 * 8000, 'é')]), e: Buffer.alloc(0), status: 3, signal: null }, { ops: [], o: [], e: [], status: 0, signal: null }, { ops: [`e3000:${hex(Buffer.alloc(5000, 'z'))}`], o: Buffer.alloc(0), e: Buffer.alloc(3000 * 5000, 'z'), status: 0, signal: null }][i]; c.ev(i);
    if (i === 1) { for (let k = 0; k < 700; k++) { const b = Buffer.from(String.fromCharCode(97 + k % 26)), err = k % 3 === 2; s.ops.push(`${err ? 'e' : 'o'}1:${hex(b)}`, 'p1'); (err ? s.e : s.o).push(b); } s.o = Buffer.concat(s.o); s.e = Buffer.concat(s.e); }
    await one(c, s, { isToString: i === 1 }, false);
  });
  await ctx.section('many', ctx.n(25, 8), async c => {
    const all = Array.from({ length: c.int(2, 14) }, () => [script(c, { big: c.bool(0.3) }), c.pick(OPT())]); c.ev(all.map(([s, o]) => [s.ops.map(x => x.slice(0, 40)), o]));
    await Promise.all(all.map(([s, o]) => one(c, s, o, false))); ctx.stat('concurrent', all.length);
  });
  await ctx.section('stdin', ctx.n(40, 8), async c => {
    const parts = Array.from({ length: c.int(0, 5) }, () => c.pick(TEXT).repeat(c.pick([1, 3, 900]))), p = spawn(doer, ['o1:5b', 'i', 'o1:5d', 'x7'], { isToString: false }); c.ev(parts);
    await new Promise(r => setTimeout(r, 5));
    c.ok(p.stdin && typeof p.stdin.write === 'function', 'stdin', 'the promise has no stdin once the child runs'); c.ok(p.process && p.process.pid > 0, 'process', 'the promise has no process once the child runs');
    for (const x of parts) { p.stdin.write(x); if (c.bool()) await new Promise(r => setTimeout(r, 1)); } p.stdin.end();
    const r = await p; c.ok(r.stdout.equals(Buffer.from('[' + parts.join('') + ']')), 'stdin-echo', 'what was written to stdin did not all come back'); c.eq(r.status, 7, 'exit');
  });
  // killed from outside
  await ctx.section('killed', ctx.n(30, 6), async c => {
    const sig = c.pick(['SIGTERM', 'SIGKILL', 'SIGUSR2']), p = spawn(doer, ['o3:6162', 'e1:7a', 'p5000'], {}); c.ev(sig);
    await new Promise(r => setTimeout(r, 5)); const end = performance.now() + 3000; while (!(p.process.stdout.bytesRead >= 6 && p.process.stderr.bytesRead >= 1) && performance.now() < end) await new Promise(r => setTimeout(r, 2)); await new Promise(r => setTimeout(r, 10));
    p.process.kill(sig); const r = await p; c.eq([r.status, r.signal, r.stdout, r.stderr], [null, sig, 'ababab', 'z'], 'killed');
  });
  await ctx.section('cannot-run', ctx.n(60, 6), async c => {
    const how = c.int(0, 6), live = script(c, { big: false }), other = one(c, live, {}, false); let p, sync = false; c.ev(how); other.catch(() => 0);
    if (how === 0) p = spawn('no-such-command-' + c.int(0, 9), ['a']); else if (how === 1) p = spawn(doer, [], { cwd: path.join(base, 'missing') }); else if (how === 2) p = spawn(base, []); else if (how === 3) { fs.writeFileSync(path.join(base, 'plain'), 'x'); p = spawn(path.join(base, 'plain')); }
    else { sync = true; p = how === 4 ? spawn('') : how === 5 ? spawn('a\0b') : spawn(doer, ['a\0b']); }
    await c.rejects(p, 'cannot-run', sync ? undefined : e => e && e.error instanceof Error && /ENOENT|EACCES/.test(e.error.code) && typeof e.cmd === 'string' && Array.isArray(e.args));
    await new Promise(r => setTimeout(r, 3)); await other;
  });
  const q = x => `'${x}'`;
  await ctx.section('exec', ctx.n(150, 10), async c => {
    const s = script(c, { big: false }); c.ev(s.ops); const buf = c.bool(0.3), o = c.pick([undefined, {}, { encoding: 'utf8' }]), opts = buf ? { encoding: 'buffer' } : o, parts = ['exec', doer, ...s.ops.map(q)];
    const call = exec(c.bool() ? parts : parts.join(' '), opts), own = JSON.stringify(parts), conv = b => buf ? b : b.toString(), bad = s.status !== 0; let r, err; try { r = await call; } catch (e) { err = e; }
    c.eq(JSON.stringify(parts), own, 'exec-args-changed'); c.eq(!!err, bad, 'exec-outcome', [s.ops, String(err)]); const got = err ?? r;
    for (const [k, w] of [['stdout', s.o], ['stderr', s.e]]) c.ok(same(got[k], conv(w)), 'exec-' + k, () => `exec of ${s.ops.join(' ')} gives ${k} ${brief(got[k])}, expected ${brief(conv(w))}`);
    if (err) c.eq([err.code ?? null, err.signal ?? null], [s.status, s.signal], 'exec-code'); ctx.stat('children');
  });
  await ctx.section('exec-join', 8, async (c, i) => {
    const [cmd, o, e] = [[['printf %s "a', '', '', 'b"'], 'a   b', ''], [['printf', '%s', '"', 'x', '"'], ' x ', ''], [['printf "%s|"', 'a', '', '""', 'b'], 'a||b|', ''], [[doer, `o220:${hex(Buffer.alloc(4096, 'q'))}`, `e200:${hex(Buffer.alloc(4096, 'r'))}`], 'q'.repeat(220 * 4096), 'r'.repeat(200 * 4096)], [[`printf '%s' '  x  '`], '  x  ', ''], ['printf %s a\\ ', 'a ', ''], [['printf %s "a ', ' b"'], 'a   b', ''], [['printf %s "', '\ta\t', ' "'], ' \ta\t  ', '']][i]; c.ev(cmd);
    const r = await exec(cmd); c.ok(r.stdout === o && r.stderr === e, 'exec-join', () => `exec of ${JSON.stringify(cmd).slice(0, 80)} gives ${brief(r.stdout)} and ${brief(r.stderr)}, expected ${brief(o)} and ${brief(e)}`);
  });
  await ctx.section('released', 1, async c => { const n = await settleFds(fds); c.ev('fds'); c.ok(n <= fds, 'descriptors', () => `${n - fds} descriptors are still open after all children ended`); });
  await ctx.section('sleep', ctx.n(200, 10), async c => {
    const ts = Array.from({ length: c.int(1, 6) }, () => c.pick([0, 1, 5, 10, 100, 999, 60000])); c.ev(ts); const clock = new VClock(); clock.install();
    try { const t0 = clock.now, at = ts.map(t => { let x = null; sleep(t).then(() => x = clock.now - t0); return () => x; }); await c.drain(); while (clock.fireNext()) await c.drain(); ts.forEach((t, i) => { const x = at[i](); c.ok(x !== null && x >= t && x <= Math.max(t, 1), 'sleep', () => `sleep(${t}) ended after ${x}`); }); } finally { clock.uninstall(); }
  });
}
