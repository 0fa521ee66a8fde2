import fs from 'node:fs';
import path from 'node:path';
import { load, scratch } from '../lib/bundle.mjs';
import { area } from '../lib/tree.mjs';
export const rule = 'random shortcut tables (targets: files, folders with and without a dot, missing, unresolvable) beside ordinary trees, resolved through a stand-in for powershell.exe that decodes the command text; non-trivial: distinct (tree, table)';
export const assumptions = ['the process reports win32 while paths stay in POSIX form', 'powershell.exe is a script that unquotes the CreateShortcut argument, answers from a table and records what it was asked', 'a shortcut that cannot be resolved is skipped'];
export default async function (ctx) {
  const base = path.join(scratch(), 'x07'), bin = path.join(base, 'bin'); fs.mkdirSync(bin, { recursive: true }); const rec = path.join(base, 'rec'), tab = path.join(base, 'table');
  // one line per shortcut: path, target, line end, standard error, exit status
  fs.writeFileSync(path.join(bin, 'powershell.exe'), `#!/bin/bash
LC_ALL=C.UTF-8; cmd="$*"; q="'"; re="CreateShortcut\\('(([^']|'')*)'\\)(.*)"
if ! [[ $cmd =~ $re ]] || [[ $(tr -d ' );\\n\\r' <<< "\${BASH_REMATCH[3]}") != .TargetPath ]]; then printf 'unreadable\\n' >> ${rec}; echo 'parse error' >&2; exit 1; fi
p="\${BASH_REMATCH[1]//$q$q/$q}"; printf '%s\\n' "$p" >> ${rec}
while IFS=$'\\x1f' read -r k to nl err code; do if [ "$k" = "$p" ]; then printf '%s' "$err" >&2; printf "%s$nl" "$to"; exit "$code"; fi; done < ${tab}
printf '\\r\\n'
`); fs.chmodSync(path.join(bin, 'powershell.exe'), 0o755); for (const d of [base, bin]) fs.chmodSync(d, 0o777);
  const nix = load('fs'), real = Object.getOwnPropertyDescriptor(process, 'platform'), setAs = v => Object.defineProperty(process, 'platform', { ...real, value: v }); setAs('win32'); let lib; try { lib = load('fs'); } finally { setAs(real.value); }
  const win = new Proxy(lib, { get: (o, k) => async (...a) => { setAs('win32'); try { return await o[k](...a); } finally { setAs(real.value); } } });
  ctx.unprivileged(); process.chdir(base); process.env.PATH = bin + ':' + process.env.PATH;
  const asked = () => { try { return fs.readFileSync(rec, 'utf8').split('\n').filter(Boolean); } catch { return []; } }, clear = () => fs.rmSync(rec, { force: true }), set = t => fs.writeFileSync(tab, Object.entries(t).map(([k, e]) => [k, e.to, JSON.stringify(e.nl).slice(1, -1), e.err || '', e.code || 0].join('\x1f') + '\n').join(''));
  const NAMES = ['a', 'app', 'with space', "it's", "''", '中文', 'a & b', '100%', '$HOME', 'x;y', '(1)', 'v1.2', 'a.b.c', '"q"', '`t`', '^c'], NL = ['\r\n', '\n', '', '\r\n\r\n'];
  await ctx.section('read', ctx.n(200, 12), async c => {
    const a = area(base), name = c.pick(NAMES) + '.lnk', p = path.join(a, name), how = c.weighted([[6, 'ok'], [1, 'stderr'], [1, 'code']]), to = path.join(a, c.pick(NAMES), c.pick(NAMES)); c.ev([name, how, to.replace(a, '')]); clear();
    set({ [p]: { to, nl: c.pick(NL), err: how === 'stderr' ? 'failed' : '', code: how === 'code' ? 1 : 0 } }); const arg = c.bool(0.3) ? p.replace('/x07/', '/x07/./zz/../') : p;
    if (how === 'ok') c.eq(await win.readLnk(arg), to, 'readLnk'); else await c.rejects(win.readLnk(arg), 'readLnk-failed');
    c.eq(asked(), [p], 'readLnk-asked'); clear(); await c.rejects(nix.readLnk(p), 'readLnk-elsewhere'); c.eq(asked(), [], 'readLnk-elsewhere-asked'); ctx.stat('resolved'); fs.rmSync(a, { recursive: true, force: true });
  });
  await ctx.section('follow', ctx.n(120, 12), async c => {
    const a = area(base), w = path.join(a, 'w'), outs = [], table = {}; const put = f => { fs.mkdirSync(path.dirname(f), { recursive: true }); fs.writeFileSync(f, ''); };
    // folders and files elsewhere that shortcuts lead to
    for (let i = c.int(1, 3); i > 0; i--) { const d = path.join(a, 'o' + i, c.pick(NAMES)), files = c.arr(0, 3, k => path.join(d, ...c.pick([[], ['sub'], ['src'], ['src', 'src']]), 'f' + k)); fs.mkdirSync(d, { recursive: true }); files.forEach(put); outs.push({ d, files }); }
    fs.mkdirSync(w); const plain = c.arr(0, 4, k => path.join(w, ...c.pick([[], ['p'], ['src'], ['p', 'q.r'], ['d.lnk']]), 'p' + k)); plain.forEach(put);
    const want = [...plain], dirs = [w], links = []; for (let i = c.int(0, 4); i > 0; i--) {
      const at = path.join(w, ...c.pick([[], ['p']]), c.pick(NAMES) + i + '.lnk'); put(at); const o = c.pick(outs), how = c.pick(['dir', 'dir', 'file', 'gone', 'err', 'none']); links.push([path.basename(at), how]);
      if (how === 'dir') { table[at] = { to: o.d, nl: '\r\n' }; want.push(...o.files); dirs.push(o.d); } else if (how === 'file') { const f = path.join(a, 'single' + i + c.pick(['', '.txt'])); put(f); table[at] = { to: f, nl: '\r\n' }; want.push(f); }
      else if (how === 'gone') table[at] = { to: '', nl: '\r\n' }; else if (how === 'err') table[at] = { to: '', nl: '', err: 'x', code: 1 };
    }
    c.ev([plain.map(p => p.replace(a, '')), links, outs.map(o => [o.d.replace(a, ''), o.files.length])]); set(table); clear(); const S = x => [...x].sort();
    c.eq(S(await win.fileList(w)), S(want), 'fileList'); c.eq(S(asked()), S(links.map(l => [...Object.keys(table), ...[w, path.join(w, 'p')].map(d => path.join(d, l[0]))].find(f => path.basename(f) === l[0] && fs.existsSync(f)))), 'fileList-asked');
    const top = []; const walk = d => { for (const n of fs.readdirSync(d)) { const f = path.join(d, n); if (fs.lstatSync(f).isDirectory()) { if (n === 'src') top.push(f); else walk(f); } else if (table[f] && table[f].to && fs.statSync(table[f].to).isDirectory()) walk(table[f].to); } }; walk(w);
    c.eq(S(await win.findDir(w, 'src')), S(top), 'findDir'); ctx.stat('followed', dirs.length - 1);
    fs.rmSync(a, { recursive: true });
  });
  // shortcuts that lead back to a folder above them, directly or around several
  await ctx.section('circles', ctx.n(60, 10), async c => {
    const a = area(base), w = path.join(a, 'w'), o = [w, path.join(w, 'p'), path.join(w, 'p', 'src'), path.join(a, 'o1'), path.join(a, 'o2', 's')], table = {}, files = []; for (const d of o) { fs.mkdirSync(d, { recursive: true }); if (c.bool(0.7)) { const f = path.join(d, 'f'); fs.writeFileSync(f, ''); files.push(f); } }
    for (let i = c.int(1, 4); i > 0; i--) { const at = path.join(c.pick(o), 'l' + i + '.lnk'); fs.writeFileSync(at, ''); table[at] = { to: c.pick([a, ...o]), nl: '\r\n' }; }
    c.ev(Object.entries(table).map(([k, t]) => k.replace(a, '') + '>' + t.to.replace(a, ''))); set(table); clear();
    const limit = p => Promise.race([p, new Promise((_, n) => setTimeout(() => n('late'), 15000).unref())]), kids = d => fs.readdirSync(d).map(n => path.join(d, n)), isDir = f => fs.lstatSync(f).isDirectory();
    // everything reachable is listed
    const seen = new Set(), found = new Set(); (function walk(d) { if (seen.has(d)) return; seen.add(d); for (const f of kids(d)) if (isDir(f)) walk(f); else if (table[f]) walk(table[f].to); else found.add(f); })(w);
    const got = await limit(win.fileList(w)).catch(e => { c.ok(e !== 'late', 'circle', 'listing shortcuts that lead back never ends'); throw e; }); c.eq([...new Set(got)].sort(), [...found].sort(), 'circle-files', Object.entries(table)); const n = asked().length; c.ok(n <= 400, 'circle-asked', () => `${n} shortcuts are read`);
    const top = new Set(), been = new Set(); (function walk(d) { if (been.has(d)) return; been.add(d); for (const f of kids(d)) if (isDir(f)) { if (path.basename(f) === 'src') top.add(f); else walk(f); } else if (table[f]) walk(table[f].to); })(w);
    const dirs = await limit(win.findDir(w, 'src')).catch(e => { c.ok(e !== 'late', 'circle', 'searching shortcuts that lead back never ends'); throw e; }); c.eq([...new Set(dirs)].sort(), [...top].sort(), 'circle-dirs', Object.entries(table)); ctx.stat('circles'); fs.rmSync(a, { recursive: true });
  });
  // shortcuts far down, and chains of them
  await ctx.section('deep', 4, async (c, i) => {
    const a = area(base), deep = [12, 25, 45, 9][i], chain = [3, 14, 6, 22][i], table = {}, files = [], hits = []; let d = path.join(a, 'w'); c.ev([deep, chain]); const put = f => { fs.mkdirSync(path.dirname(f), { recursive: true }); fs.writeFileSync(f, ''); };
    for (let k = 0; k < deep; k++) d = path.join(d, 'n' + k); fs.mkdirSync(d, { recursive: true });
    for (let k = 0; k < chain; k++) { const at = path.join(d, 'go' + k + '.lnk'); put(at); d = path.join(a, 'o' + k, 'x'); fs.mkdirSync(d, { recursive: true }); table[at] = { to: d, nl: '\r\n' }; put(path.join(d, 'f')); files.push(path.join(d, 'f')); fs.mkdirSync(path.join(d, 'hit')); hits.push(path.join(d, 'hit')); }
    set(table); clear(); c.eq((await win.fileList(path.join(a, 'w'))).sort(), files.sort(), 'fileList-deep', [deep, chain]); c.eq((await win.findDir(path.join(a, 'w'), 'hit')).sort(), hits.sort(), 'findDir-deep', [deep, chain]); fs.rmSync(a, { recursive: true });
  });
  await ctx.section('dest', ctx.n(120, 12), async c => {
    const a = area(base), w = path.join(a, 'w'), des = path.join(a, 'des'), table = {}, outs = []; fs.mkdirSync(w); const used = new Set();
    for (let i = c.int(1, 4); i > 0; i--) { const name = c.pick(NAMES) + c.pick(['', i]); if (used.has(name)) continue; used.add(name); const d = path.join(a, c.pick(['o', 'o2', 'w', 'w-real', 'w.']) + i, c.pick(['t', 't.u', 'tt'])); fs.mkdirSync(d, { recursive: true }); const at = path.join(w, name + '.lnk'); fs.writeFileSync(at, ''); const how = c.bool(0.8); table[at] = how ? { to: d, nl: '\r\n' } : { to: '', nl: '', err: 'x', code: 1 }; if (how) outs.push({ name, d }); }
    fs.writeFileSync(path.join(w, 'x.lnk.txt'), ''); fs.mkdirSync(path.join(w, '.lnks')); clear(); if (!outs.length) return void fs.rmSync(a, { recursive: true }); const o = c.pick(outs), rel = path.join(...c.pick([['f'], ['s', 'f'], ['s.t', 'u', 'f'], ['..f']])), isMakeDir = c.pick([undefined, true, false]); c.ev([outs.map(x => x.name), o.name, rel, isMakeDir]); set(table);
    const got = await win.destPath(path.join(o.d, rel), w, des, isMakeDir === undefined ? undefined : { isMakeDir }), want = path.join(des, o.name, rel); c.eq(got, want, 'destPath', { outs, rel }); c.ok(asked().every(f => f.endsWith('.lnk')), 'destPath-asked', 'a file that is no shortcut is read as one'); c.eq(fs.existsSync(path.dirname(want)), !!isMakeDir, 'destPath-made');
    ctx.stat('mapped'); fs.rmSync(a, { recursive: true });
  });
}
