import fs from 'node:fs';
import path from 'node:path';
import cp from 'node:child_process';
import { load, scratch } from '../lib/bundle.mjs';
import { snap, diff } from '../lib/tree.mjs';
export const rule = 'random argument lists rich in shell metacharacters, through no shell, sh, bash and dash, in a folder whose names match globs; argv recorded by the child; command lines for cmd.exe decoded by a model of its rules; non-trivial: distinct (shell, list)';
export const assumptions = ['arguments hold no NUL and no lone surrogates (no process argument can)', 'cmd.exe and the openers of other platforms are replaced by recorders, the platform by changing process.platform and os.release; its parsing is modelled (percent expansion of defined names, carets, then CommandLineToArgvW), without line breaks'];
const BITS = ["'", "''", "'''", '"', '""', '`', '$HOME', '$(touch pwned)', '`touch pwned`', ';touch pwned', '&& touch pwned', '| touch pwned', '> pwned', '\\', '\\\\', "\\'", '\n', '\r\n', '\t', ' ', '  ', '*', '?', '[ab]', '[a-z]*', '{a,b}', '{1..3}', '~', '~root', '#', '!', '!!', '^', '=', 'A=1', '-n', '--', '-e', '%', '%s', '%PATH%', '\\n', '$', '$$', '$1', '${HOME}', '(', ')', '<', '<<EOF', '&', 'é', '中', '😀', '\u00a0', '\u2028', '\v', '\f', '\x01', '\x7f', 'a', 'b', 'ab', 'word', '0', '-', '/', '.', ',', ':', '@', '+', '\\$', '"$HOME"', "'$HOME'", "'a'", "'a", "a'", "'a'b'c'", "$'x'", 'if', 'a b'];
export default async function (ctx) {
  const spawn0 = cp.spawn; let raw = []; cp.spawn = (...a) => { raw.push(a); return spawn0(...a); };
  const m = load('process'), { spawn, open } = m;
  const base = path.join(scratch(), 'p01'); fs.mkdirSync(base); fs.chmodSync(base, 0o777);
  const wd = path.join(base, 'wd'), bin = path.join(base, 'bin'); fs.mkdirSync(wd); fs.mkdirSync(bin);
  for (const n of ['a', 'b', 'ab', 'word', '*', 'x y', "q'", 'abc', '1', '-n']) fs.writeFileSync(path.join(wd, n), '');
  const tool = (n, body) => { fs.writeFileSync(path.join(bin, n), body); fs.chmodSync(path.join(bin, n), 0o755); };
  const rec = '#!/bin/sh\nprintf "%s\\0" "$0" "$@"\n';
  for (const n of ['cmd', 'rec', 'rec.cmd', 'rec.bat', 'rec.exe', 'xdg-open', 'rec tool', 'open', 'CMD', 'cmd.exe', 'Cmd.EXE', 'C:\\Windows\\cmd.exe', 'C:\\W\\cmd', 'rec tool.cmd', 'qcmd', 'xcmd.exe', 'cmd.exe.sh']) tool(n, n.endsWith('cmd.exe') || n === 'cmd.exe' ? rec.replace('printf', 'case "$4" in \'"where \'*) exit 1;; esac\nprintf') : rec);
  for (const [d, e] of [['w1', 'exe'], ['w2', 'cmd'], ['w3', 'BAT'], ['w4', 'Cmd'], ['w5', 'bat'], ['w6', 'cmd.exe'], ['w7', 'xbat']]) { fs.mkdirSync(path.join(base, d)); fs.writeFileSync(path.join(base, d, 'which'), `#!/bin/sh\ncase "${e}$PATHEXT" in cmd|cmd*.CMD*|[!c]*|Cmd*|cmd.exe*) printf "%s\\n" "/x/$1.${e}";; *) exit 1;; esac\n`); fs.chmodSync(path.join(base, d, 'which'), 0o755); fs.chmodSync(path.join(base, d), 0o755); }
  fs.chmodSync(wd, 0o777); ctx.unprivileged(); process.chdir(wd); process.env.PATH = bin + ':' + process.env.PATH; process.env.HOME = path.join(base, 'home'); fs.mkdirSync(process.env.HOME); for (const f of ['.profile', '.bash_profile', '.bash_login', '.bashrc']) fs.writeFileSync(path.join(base, 'home', f), 'touch pwned\n');
  const before = snap(wd);
  const arg = c => { const k = c.int(0, 9); if (k === 0) return ''; if (k < 5) return c.pick(BITS); return Array.from({ length: c.int(1, 6) }, () => c.pick(BITS)).join(''); };
  const list = (c, f = arg) => Array.from({ length: c.pick([0, 1, 1, 2, 3, 6, 20]) }, () => f(c));
  const out = r => String(r.stdout).split('\0').slice(1, -1);
  const calm = c => { const d = diff(before, snap(wd)); if (d.length) { for (const n of fs.readdirSync(wd)) if (!(n in before)) fs.rmSync(path.join(wd, n), { recursive: true }); } c.ok(!d.length, 'executed', () => `an argument was executed as shell code: ${d.join('; ')}`); };
  await ctx.section('argv', ctx.n(1500, 12), async c => {
    const args = list(c), shell = c.pick([undefined, false, true, true, true, 'sh', 'bash', 'bash', '/bin/dash', '/bin/sh']), own = args.slice(), opts = { shell, isToString: false, cwd: wd };
    const pre = shell && c.bool(0.2) ? ['x', 'y z'] : []; c.ev([shell, args, pre]);
    const cmd = 'rec' + (pre.length ? " x 'y z'" : ''), keep = JSON.stringify(opts), r = await spawn(cmd, args, opts);
    c.eq(out(r), pre.concat(own), shell ? 'argv-shell' : 'argv', { shell, args: own, ran: r.args, stderr: String(r.stderr) }); c.eq(r.status, 0, 'status'); c.eq(args, own, 'args-changed'); c.eq(JSON.stringify(opts), keep, 'options-changed');
    if (!shell) { c.eq(r.cmd, cmd, 'result-cmd'); c.eq(r.args, own, 'result-args'); }
    ctx.stat('arguments', own.length); calm(c);
  });
  // each metacharacter on its own, first, last and in the middle, in every shell
  const singles = [...new Set(BITS.concat([...Array(126).keys()].map(i => String.fromCharCode(i + 1))))];
  await ctx.section('each', singles.length, async (c, i) => {
    const s = singles[i], args = [s, s + 'a', 'a' + s, 'a' + s + 'b', s + s, ' ' + s, "'" + s, s + "'", '']; c.ev(s);
    for (const shell of ['sh', 'bash']) c.eq(out(await spawn('rec', args, { shell, isToString: false, cwd: wd })), args, 'argv-single', { shell, s }); ctx.stat('arguments', args.length * 2); calm(c);
  });
  // a shell whose name only looks like cmd.exe is no cmd.exe
  await ctx.section('lookalike-shells', ctx.n(40, 4), async c => {
    const own = list(c), shell = c.pick(['qcmd', 'xcmd.exe', 'cmd.exe.sh']); c.ev([shell, own]); const p = out(await spawn('rec', own, { shell, isToString: false, cwd: wd })); c.ok(p.length === 2 && p[0] === '-c' && p[1].startsWith('rec'), 'lookalike-shell', () => `${shell} is called with ${JSON.stringify(p)}`);
    const r = cp.spawnSync('sh', p, { cwd: wd }); c.eq(out(r), own, 'argv-shell', { shell, args: own }); calm(c);
  });
  await ctx.section('open', ctx.n(150, 8), async c => {
    const args = list(c), own = args.slice(), one = args.length === 1 && c.bool(), command = c.pick([undefined, undefined, 'rec', "'rec tool'"]); c.ev([args, command, one]);
    const o = { isToString: false, cwd: wd, ...(command && { command }) }, keep = JSON.stringify(o), r = await open(one ? args[0] : args, o), p = String(r.stdout).split('\0');
    c.eq(path.basename(p[0]), command ? command.replace(/'/g, '') : 'xdg-open', 'opener'); c.eq(out(r), own, 'argv-open', { args: own }); c.eq(JSON.stringify(o), keep, 'open-options-changed'); calm(c);
  });
  // cmd.exe: what it and the program's start-up code make of the command line
  const DEFINED = new Set(['PATH', 'COMSPEC', 'HOME']), percent = s => { let r = ''; for (let i = 0; i < s.length;) { if (s[i] === '%') { const j = s.indexOf('%', i + 1); if (j > 0 && DEFINED.has(s.slice(i + 1, j).toUpperCase())) { r += 'C:\\Expanded'; i = j + 1; continue; } } r += s[i++]; } return r; };
  const uncaret = s => s.replace(/\^([^])/g, '$1'), special = s => /(^|[^^])(\^\^)*[|&<>()]/.test(s);
  function argvW(s) {
    const r = []; let cur = null, q = false;
    for (let i = 0; i < s.length;) {
      const ch = s[i];
      if (!q && (ch === ' ' || ch === '\t')) { if (cur !== null) r.push(cur); cur = null; i++; continue; }
      cur ??= '';
      if (ch === '\\') { let n = 0; while (s[i] === '\\') { n++; i++; } if (s[i] === '"') { cur += '\\'.repeat(n >> 1); if (n & 1) { cur += '"'; i++; } } else cur += '\\'.repeat(n); continue; }
      if (ch === '"') { if (q && s[i + 1] === '"') { cur += '"'; i += 2; continue; } q = !q; i++; continue; }
      cur += ch; i++;
    }
    if (cur !== null) r.push(cur); return r;
  }
  await ctx.section('cmd-exe', ctx.n(500, 10), async c => {
    const safe = x => arg(x).replace(/[\r\n\v\f]/g, ''), args = list(c, safe), cmd = c.pick(['rec', 'rec', 'rec.exe', 'rec.cmd', 'rec.bat', 'rec -a b', '"rec tool.cmd"', '"rec tool.cmd" -z', '"rec tool"', 'rec rec.cmd']), own = args.slice(); c.ev([cmd, args]);
    const r = await spawn(cmd, args, { shell: 'cmd', isToString: false, cwd: wd }), p = String(r.stdout).split('\0').slice(1, -1);
    c.ok(p.length === 4 && p.slice(0, 3).join(' ') === '/d /s /c' && p[3].startsWith(cmd), 'cmd-call', () => `cmd.exe is called with ${JSON.stringify(p)}`);
    const line = p[3].slice(cmd.length), levels = /^(rec\.(cmd|bat)|"rec tool\.cmd".*)$/.test(cmd) ? 2 : 1; let s = percent(line);
    for (let k = 0; k < levels; k++) { c.ok(!special(s), 'cmd-operator', () => `cmd.exe sees an operator in ${line} for ${JSON.stringify(own)}`); s = uncaret(s); }
    c.eq(argvW(s), own, 'argv-cmd', { line, args: own }); ctx.stat('arguments', own.length); calm(c);
  });
  // the command that decides on one or two levels of carets is looked up with the caller's PATH and PATHEXT; the other platforms are simulated
  const dirs = ['w1', 'w2', 'w3', 'w4', 'w5', 'w6', 'w7'].map(n => path.join(base, n)), real = process.platform, os = process.getBuiltinModule('os'), release0 = os.release;
  const as = (platform, release, f) => { const env0 = process.env.ComSpec; Object.defineProperty(process, 'platform', { value: platform, configurable: true }); if (release) os.release = () => release; try { return f(); } finally { Object.defineProperty(process, 'platform', { value: real, configurable: true }); os.release = release0; if (env0 === undefined) delete process.env.ComSpec; else process.env.ComSpec = env0; } };
  const decode = (c, line, own, levels) => { verbatim(c); let s = percent(line); for (let k = 0; k < levels; k++) { c.ok(!special(s), 'cmd-operator', () => `cmd.exe sees an operator in ${line} for ${JSON.stringify(own)}`); s = uncaret(s); } c.eq(argvW(s), own, 'argv-cmd', { line, args: own }); };
  const winArg = x => arg(x).replace(/[\r\n\v\f]/g, ''); const verbatim = c => { for (const a of raw) if (Array.isArray(a[1]) && a[1][0] === '/d') c.ok(a[2]?.windowsVerbatimArguments === true, 'verbatim', 'the command line for cmd.exe is left to be quoted again'); raw = []; };
  await ctx.section('cmd-lookup', ctx.n(150, 8), async (c, i) => {
    raw = []; const own = list(c, winArg), k = i % 8, ext = c.pick([undefined, '.EXE;.CMD', '.EXE']), quoted = c.bool(0.3), name = quoted ? '"the script"' : 'script', shell = c.pick(['cmd', 'CMD', 'cmd.exe', 'Cmd.EXE', 'C:\\Windows\\cmd.exe', 'C:\\W\\cmd']), rest = c.pick(['', ' -x', ' "y z" -q']); c.ev([own, k, ext, name, shell, rest]);
    // w1 finds script.exe, w2 finds script.cmd unless PATHEXT leaves .CMD out, w3 to w7 find script.BAT, .Cmd, .bat, .cmd.exe and .xbat
    const env = { ...process.env }; if (k) env.PATH = dirs[k - 1] + ':' + env.PATH; if (ext) env.PATHEXT = ext; const opts = { shell, isToString: false, cwd: wd, ...(k || ext ? { env } : {}) };
    const levels = k === 2 && ext !== '.EXE' || k >= 3 && k <= 5 ? 2 : 1, r = await spawn(name + rest, own, opts), p = String(r.stdout).split('\0').slice(1, -1);
    c.ok(p.length === 4 && p.slice(0, 3).join(' ') === '/d /s /c' && p[3].startsWith(name + rest), 'cmd-call', () => `cmd.exe is called with ${JSON.stringify(p)}`); decode(c, p[3].slice((name + rest).length), own, levels); calm(c); ctx.stat('arguments', own.length);
  });
  await ctx.section('open-platforms', ctx.n(150, 8), async c => {
    raw = []; const own = list(c, winArg), kind = c.pick(['win32', 'win32', 'wsl', 'wsl', 'darwin', 'linux']), command = c.pick([undefined, undefined, undefined, 'rec']), comspec = c.pick(['cmd.exe', 'C:\\Windows\\cmd.exe']), release = kind === 'wsl' ? c.pick(['4.4.0-19041-Microsoft', '5.15.90.1-microsoft-standard-WSL2']) : kind === 'darwin' && c.bool() ? 'microsoft' : '6.1.0-13-amd64'; c.ev([own, kind, command, comspec]);
    const o = { isToString: false, cwd: wd, ...(command && { command }) }, keep = JSON.stringify(o), r = await as(kind === 'wsl' ? 'linux' : kind, release, () => { process.env.ComSpec = comspec; return open(own.slice(), o); }), p = String(r.stdout).split('\0'), cmd = kind === 'win32' || kind === 'wsl' && !command;
    c.eq(JSON.stringify(o), keep, 'open-options-changed'); c.eq(path.basename(p[0]), cmd ? comspec : command ?? (kind === 'darwin' ? 'open' : 'xdg-open'), 'opener'); ctx.stat('open_' + kind);
    if (cmd) { const head = command ?? 'start ""'; c.ok(p.length === 6 && p.slice(1, 4).join(' ') === '/d /s /c' && p[4].startsWith(head), 'cmd-call', () => `cmd.exe is called with ${JSON.stringify(p)}`); decode(c, p[4].slice(head.length), own, 1); }
    else c.eq(out(r), own, 'argv-open', { args: own }); calm(c);
  });
}
