import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import cp from 'node:child_process';
import { load, scratch } from '../lib/bundle.mjs';
export const rule = 'random task tables laid out as tasklist prints them, ended and missing tasks, shortcut options, through stand-ins for the Windows commands; non-trivial: distinct (table, query)';
export const assumptions = ['tasklist, taskkill, powershell.exe and wscript are scripts in a scratch folder that answer from a table and record their arguments', 'os.type is replaced before the package is loaded'];
export default async function (ctx) {
  const base = path.join(scratch(), 'k02'), bin = path.join(base, 'bin'); fs.mkdirSync(bin, { recursive: true });
  const tool = (n, body) => { fs.writeFileSync(path.join(bin, n), '#!/bin/sh\n' + body); fs.chmodSync(path.join(bin, n), 0o755); };
  const recd = path.join(base, 'rec'); tool('tasklist', `printf '%s\\0' tasklist "$@" > ${recd}\ncat ${base}/out\n`);
  tool('taskkill', `printf '%s\\0' taskkill "$@" > ${recd}\ncat ${base}/err >&2\ncat ${base}/out\nexit $(cat ${base}/code)\n`);
  tool('powershell.exe', `printf '%s\\0' powershell "$@" > ${recd}\ncat ${base}/out\n`); tool('wscript', `printf '%s\\0' wscript "$@" > ${recd}\n`);
  for (const d of [base, bin]) fs.chmodSync(d, 0o777);
  const type = os.type, release = os.release; const as = (t, rel) => { os.type = () => t; os.release = () => rel ?? release(); try { return load('os'); } finally { os.type = type; os.release = release; } };
  const win = as('Windows_NT'), nix = load('os'); ctx.unprivileged(); process.chdir(base); process.env.PATH = bin + ':' + process.env.PATH;
  const set = (out, err = '', code = 0) => { fs.writeFileSync(base + '/out', out); fs.writeFileSync(base + '/err', err); fs.writeFileSync(base + '/code', String(code)); fs.rmSync(recd, { force: true }); };
  const calls = () => { try { return fs.readFileSync(recd, 'utf8').split('\0').slice(0, -1); } catch { return null; } };
  const NAMES = ['System Idle Process', 'System', 'node.exe', 'Node.exe', 'a.exe', 'svchost.exe', 'Memory Compression', 'x64 (1).exe', '微信.exe', 'a'.repeat(25), 'Secure System', '1.exe', 'with,comma.exe', '123', 'K', 'a(1).exe', 'b&c.exe', 'x;y.exe', "it's.exe", 'a*.exe', 'tab\tname.exe', '#h.exe'].filter(n => !/\t/.test(n));
  const comma = n => String(n).replace(/\B(?=(\d{3})+$)/g, ',');
  const row = t => t.imageName.padEnd(25) + ' ' + t.pid.padStart(8) + ' ' + t.session.name.padEnd(16) + ' ' + t.session.id.padStart(11) + ' ' + (comma(t.memusage) + ' K').padStart(12);
  const table = c => Array.from({ length: c.pick([1, 2, 5, 40, 300]) }, () => ({ imageName: c.pick(NAMES), pid: String(c.pick([0, 4, c.int(1, 999), c.int(1000, 4999999)])), memusage: String(c.pick([0, 8, c.int(0, 999), c.int(1000, 999999), c.int(1000000, 99999999)])), session: { name: c.pick(['Services', 'Console', 'RDP-Tcp#0', 'RDP-Tcp#12']), id: String(c.pick([0, 1, 2, 65536])) } }));
  await ctx.section('tasks', ctx.n(250, 10), async c => {
    const t = table(c), m = c.pick([win, nix]), nl = c.pick(['\r\n', '\n']); c.ev([t.length, t.slice(0, 3)]); set(c.pick(['', nl]) + t.map(row).join(nl) + c.pick(['', nl]));
    c.eq(await m.windowsTaskList(), t, 'task-list'); c.eq(calls(), ['tasklist', '/NH'], 'task-list-call');
    const q = c.pick([...NAMES, 'none.exe', '']); c.eq(await m.findWindowsTask(q), t.filter(x => x.imageName === q), 'find-task', q); ctx.stat('tasks', t.length);
  });
  await ctx.section('end', ctx.n(150, 10), async c => {
    const image = c.pick(NAMES), gone = c.bool(); c.ev([image, gone]); gone ? set('', `ERROR: The process "${image}" not found.\r\n`, 128) : set(`SUCCESS: The process "${image}" with PID 3 has been terminated.\r\n`.repeat(c.int(1, 3)));
    c.eq(await c.pick([win, nix]).killWindowsTask(image), !gone, 'end-task', { image, gone }); const a = calls(); c.eq([a[0], ...a.slice(1).sort()], ['taskkill', ...['/F', '/T', '/IM', image].sort()], 'end-task-call'); c.eq(a[a.indexOf('/IM') + 1], image, 'end-task-image');
  });
  await ctx.section('local', ctx.n(60, 5), async c => {
    const id = c.pick(['zh-CN', 'en-US', 'de-DE', 'pt-BR', 'sr-Latn-RS', 'fr-CA']), lcid = String(c.pick([1033, 2052, 9242, 4096])); c.ev([id, lcid]); set(`\r\nLCID             Name             DisplayName\r\n----             ----             -----------\r\n${lcid.padEnd(16)} ${id.padEnd(16)} English (United States)\r\n\r\n\r\n`);
    c.eq(await win.windowsLocal(), id, 'local'); fs.rmSync(recd, { force: true }); c.eq(await nix.windowsLocal(), null, 'local-elsewhere'); c.eq(calls(), null, 'local-elsewhere-call');
  });
  const fifo = path.join(base, 'fifo'), linkToFile = path.join(base, 'link'); cp.execFileSync('mkfifo', [fifo]); fs.symlinkSync(base + '/out', linkToFile); set('');
  await ctx.section('shortcut', ctx.n(200, 10), async c => {
    const name = c.pick(['app.exe', 'a.b.c.txt', 'noext', '.hidden.x', 'with space.exe', "q'$HOME.exe"]), exists = c.bool(0.8), src = path.join(base, 'src' + c.int(0, 1e9), name); fs.mkdirSync(path.dirname(src)); if (exists) fs.writeFileSync(src, '');
    const V = { args: () => c.pick(['', '--x "y z"', '$HOME']), cwd: () => base, hotkey: () => 'CTRL+F', name: () => c.pick(['n', 'a b']), windowMode: () => c.int(1, 7), description: () => c.pick(['', 'd d']), icon: () => 'i.ico' }, o = {};
    for (const k in V) if (c.bool(0.4)) o[k] = V[k](); const dir = c.pick([undefined, undefined, base, base + '/missing', src, fifo, linkToFile]); if (dir) o.dirPath = dir; if (c.bool(0.3)) o.force = c.bool(); const arg = Object.keys(o).length || c.bool() ? o : undefined, keep = JSON.stringify(o); c.ev([src, exists, o]); set('');
    const bad = !o.force && (!exists || dir !== undefined && dir !== base), p = win.windowsMakeShortcut(src, arg);
    if (bad) { await c.rejects(p, 'shortcut-invalid'); c.eq(calls(), null, 'shortcut-invalid-call'); } else {
      await p; const a = calls(); c.eq(a.slice(2), [src, o.dirPath ?? '', o.name ?? name.replace(/(.*)\..*$/, '$1'), o.args ?? '', o.description ?? '', o.cwd ?? '', o.icon ?? src, String(o.windowMode ?? 4), o.hotkey ?? ''], 'shortcut-call'); c.eq([a[0], path.basename(a[1])], ['wscript', 'shortcut.vbs'], 'shortcut-script');
    }
    c.eq(JSON.stringify(o), keep, 'shortcut-options-changed'); fs.rmSync(path.dirname(src), { recursive: true });
    fs.rmSync(recd, { force: true }); await c.rejects(nix.windowsMakeShortcut(src, arg), 'shortcut-elsewhere'); c.eq(calls(), null, 'shortcut-elsewhere-call');
  });
  await ctx.section('platform', 9, async (c, i) => {
    const [t, r, w] = [['Windows_NT', '10.0', [true, false, false, false]], ['Darwin', '22.1.0', [false, true, false, false]], ['Linux', '5.15.0-generic', [false, false, true, false]], ['Linux', '4.4.0-19041-Microsoft', [false, false, true, true]], ['Darwin', 'x-Microsoft', [false, true, false, false]], ['FreeBSD', '13', [false, false, false, false]], ['Linux', '5.15.90.1-microsoft-standard-WSL2', [false, false, true, true]], ['Linux', '5.10.16.3-microsoft-standard', [false, false, true, true]], ['Windows_NT', '10.0.19041-microsoft', [true, false, false, false]]][i], m = as(t, r); c.ev([t, r]);
    c.eq([m.isWindows, m.isMacOS, m.isLinux, m.isWSL], w, 'platform', [t, r]); for (const x of ['npm', 'a b', '', 'tsc.js', 'x'.repeat(300), './run']) c.eq(m.appendCmd(x), w[0] ? x + '.cmd' : x, 'appendCmd', [t, x]);
  });
}
