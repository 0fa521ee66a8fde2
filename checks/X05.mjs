import fs from 'node:fs';
import path from 'node:path';
import { load, scratch } from '../lib/bundle.mjs';
import { genTree, makeTree, area } from '../lib/tree.mjs';
export const rule = 'random trees with links of every kind, shortcut-named files and unusual names; listings, searches and probes against an independent walk; mapped paths with unnormalised segments; non-trivial: distinct (tree, query)';
export const assumptions = ['files and links named *.lnk may be skipped (shortcuts that cannot be resolved outside Windows; X07 covers Windows)', 'runs as an unprivileged user in a scratch directory'];
export default async function (ctx) {
  const { fileList, findDir, isDir, isFile, isSymbolicLink, symbolicLink, destPath } = load('fs');
  const base = path.join(scratch(), 'x05'); fs.mkdirSync(base); fs.chmodSync(base, 0o777); ctx.unprivileged(); process.chdir(base);
  const NAMES = ['a', 'b', 'c', 'src', 'dist', 'node_modules', 'x.js', '.hidden', 'with space', '中文', 'a.b', 'A', 'srcs', '-x', 'sc.lnk', 'y.LNK', '..z', 'test', '[a]', 'lnk', ' lead', 'trail ', 'e\u0301', 'é', '.git', '.DS_Store', 'a\nb'];
  const show = t => [...t].map(([p, e]) => e.t + ' ' + p + (e.t === 'l' ? '->' + e.to.replace(/^.*\/area\d+\//, '/') : '')).join(', ');
  const sorted = x => JSON.stringify([...x].sort());
  await ctx.section('tree', ctx.n(1500, 12), async c => {
    const a = area(base), o = path.join(a, 'out'); fs.mkdirSync(path.join(o, 'src'), { recursive: true }); fs.writeFileSync(path.join(o, 'file'), ''); fs.writeFileSync(path.join(o, 'src/in'), '');
    const links = [() => path.join(o, 'file'), () => o, () => path.join(o, 'src'), () => 'nowhere', () => '.', () => '..', () => 'a', () => '../..', () => 'e\u0301', () => 'a/', () => ' x ', () => '/dev/null', () => 'x/'.repeat(c.int(90, 300)) + 'y'];
    const tree = genTree(c, { links, depth: 4, width: 5, names: NAMES, sizes: [0] }); makeTree(path.join(a, 'w'), tree);
    const rel = c.bool(0.4), root = (rel ? path.relative(process.cwd(), path.join(a, 'w')) : path.join(a, 'w')), arg = root + (c.bool(0.2) ? '/' : '');
    const ent = [...tree], lnkUnder = p => p.endsWith('.lnk'), full = p => path.join(arg, p);
    c.ev([show(tree), rel]);
    // every non-directory entry once
    const got = await fileList(arg, c.pick([undefined, {}, { depthOnce: false }])), want = ent.filter(([p, e]) => e.t !== 'd' && !lnkUnder(p)).map(x => full(x[0]));
    const core = got.filter(p => !lnkUnder(path.relative(root, p))), opt = new Set(ent.filter(([p]) => lnkUnder(p)).map(x => full(x[0])));
    c.ok(sorted(core) === sorted(want), 'fileList', () => `fileList of {${show(tree)}} is ${sorted(core)}, expected ${sorted(want)}`);
    c.ok(got.length === new Set(got).size && got.every(p => core.includes(p) || opt.has(p)), 'fileList-extra', () => `fileList names entries twice or that are not there: ${got}`);
    const once = await fileList(arg, { depthOnce: true }), top = ent.map(x => x[0]).filter(p => !p.includes('/')); c.ok(sorted(once) === sorted(top), 'fileList-one-level', () => `one-level fileList is ${sorted(once)}, expected ${sorted(top)}`);
    // topmost folders with a requested name
    const ns = c.shuffle(NAMES.slice()).slice(0, c.int(0, 4)), q = ns.length === 1 && c.bool() ? ns[0] : ns, dirs = new Set(ent.filter(x => x[1].t === 'd').map(x => x[0]));
    const found = await findDir(arg, ns.length ? q : c.pick([undefined, []])), hits = [...dirs].filter(p => ns.includes(path.basename(p)) && !path.dirname(p).split('/').some((x, i, s) => ns.includes(x) && dirs.has(s.slice(0, i + 1).join('/')))).map(full);
    c.ok(sorted(found) === sorted(hits), 'findDir', () => `findDir(${JSON.stringify(q)}) in {${show(tree)}} is ${sorted(found)}, expected ${sorted(hits)}`); ctx.stat('found', hits.length);
    // probes
    for (const p of [...ent.map(x => x[0]), ...ent.slice(0, 4).map(x => x[0] + c.pick(['/', '/.', '//', '/..'])), '', '.', 'missing', 'a/missing', 'x.js/below']) {
      const f = root + (p && '/') + p; let st, ls, rl = null; try { st = fs.statSync(f); } catch { } try { ls = fs.lstatSync(f); } catch { } try { rl = fs.readlinkSync(f); } catch { }
      c.eq(await isFile(f), !!st?.isFile(), 'isFile', [show(tree), p]); c.eq(await isDir(f), !!st?.isDirectory(), 'isDir', [show(tree), p]); c.eq(await isSymbolicLink(f), !!ls?.isSymbolicLink(), 'isSymbolicLink', [show(tree), p]); c.eq(await symbolicLink(f), rl, 'symbolicLink', [show(tree), p]); ctx.stat('probes');
    }
    fs.rmSync(a, { recursive: true });
  });
  // wide folders with many hits
  await ctx.section('wide', ctx.n(12, 6), async c => {
    const a = area(base), r = path.join(a, 'w'), ns = c.shuffle(['x', 'dist', 'src']).slice(0, c.int(1, 3)), files = [], hits = [], top = [];
    for (let k = c.int(17, 90); k > 0; k--) {
      const d = path.join(r, c.pick(['p', 'q', 'x']) + k); top.push(path.basename(d));
      for (const g of c.subset([...ns, 'a', 'z'])) for (const sub of [g, path.join('a', g), path.join('z', g)]) if (c.bool(0.7)) { fs.mkdirSync(path.join(d, sub), { recursive: true }); if (ns.includes(g)) hits.push(path.join(d, sub)); }
      const sub = 'other'; fs.mkdirSync(path.join(d, sub, 'in'), { recursive: true });
      const f = path.join(d, sub, 'in/f'); fs.writeFileSync(f, ''); files.push(f); if (c.bool(0.3)) { const g = path.join(r, 'f' + k); fs.writeFileSync(g, ''); files.push(g); top.push('f' + k); }
    }
    c.ev([ns, hits.length, files.length]); ctx.statMax('widest', top.length);
    c.ok(sorted(await fileList(r)) === sorted(files), 'fileList', () => `fileList of a folder of ${top.length} entries misses or repeats some`); c.ok(sorted(await fileList(r, { depthOnce: true })) === sorted(top), 'fileList-one-level', () => `one-level fileList of ${top.length} entries misses or repeats some`);
    const found = await findDir(r, ns.length === 1 && c.bool() ? ns[0] : ns); c.ok(sorted(found) === sorted(hits), 'findDir', () => `findDir finds ${found.length} of ${hits.length} folders`);
    fs.rmSync(a, { recursive: true });
  });
  // more entries than fit on a call stack, and long chains of folders
  await ctx.section('huge', ctx.thorough ? 6 : 2, async (c, i) => {
    const n = [140000, 3000, 260000, 20000, 70000, 500][i], deep = [3, 700, 5, 60, 2, 900][i]; let a; try { a = fs.mkdtempSync('/dev/shm/x05-'); } catch { a = area(base); } c.ev([n, deep]);
    try {
      const w = path.join(a, 'w'), d = path.join(w, 'p/q'), top = []; fs.mkdirSync(d, { recursive: true }); try { for (let k = 0; k < n; k++) fs.closeSync(fs.openSync(`${d}/f${k}`, 'w')); } catch (e) { ctx.stat('no_room'); return; }
      let chain = w; for (let k = 0; k < deep; k++) chain += '/c'; if (chain.length < 3900) { fs.mkdirSync(chain + '/hit', { recursive: true }); fs.writeFileSync(chain + '/last', ''); } for (let k = 0; k < 300; k++) { top.push(`${w}/z${k}/hit`); fs.mkdirSync(`${w}/z${k}/hit`, { recursive: true }); }
      const got = new Set(await fileList(w)); c.ok(got.size === n + 1 && got.has(path.join(chain, 'last')) && got.has(`${d}/f0`) && got.has(`${d}/f${n - 1}`), 'fileList', () => `fileList names ${got.size} of ${n + 1} files`); c.eq((await fileList(d, { depthOnce: true })).length, n, 'fileList-one-level');
      c.ok(sorted(await findDir(w, 'hit')) === sorted([...top, chain + '/hit']), 'findDir', () => `findDir misses some of 301 folders`); ctx.statMax('most_entries', n);
    } finally { fs.rmSync(a, { recursive: true, force: true }); }
  });
  await ctx.section('invalid', ctx.n(40, 5), async c => {
    const bad = c.pick(['missing', '', 'f/x']); c.ev(bad); await c.rejects(fileList(path.join(base, 'nope', bad)), 'fileList-missing'); c.eq(await findDir(path.join(base, 'nope', bad || 'x'), 'a'), [], 'findDir-missing'); await c.rejects(findDir(c.pick(['', undefined, null, 5])), 'findDir-invalid');
    await c.rejects(destPath(...c.pick([['', 'a', 'b'], ['a/f', '', 'b'], ['a/f', 'a', ''], [undefined, 'a', 'b'], ['a/f', null, 'b']])), 'destPath-invalid');
    for (const f of ['/dev/null', '/dev/zero', '/', '/.', '/proc/self/fd', base + '/', base + '/.', base + '//']) { const st = fs.statSync(f); c.eq([await isFile(f), await isDir(f), await isSymbolicLink(f)], [st.isFile(), st.isDirectory(), fs.lstatSync(f).isSymbolicLink()], 'probe-special', f); }
    for (const f of [isFile, isDir, isSymbolicLink]) for (const v of ['', '\0', 'a\0b', undefined, null, 7]) c.eq(await f(v), false, 'probe-invalid', [f.name, v]); c.eq(await symbolicLink(c.pick(['', '\0'])), null, 'symbolicLink-invalid');
  });
  await ctx.section('dest', ctx.n(3000, 12), async c => {
    const a = area(base), seg = () => c.pick(NAMES), dir = n => Array.from({ length: n }, seg).join('/'), rel = c.bool(0.3), r0 = rel ? path.relative(process.cwd(), a) : a;
    const src = path.join(r0, c.pick(['s', 's/t', 'with space', 'dist'])), dst = path.join(r0, c.pick(['d', 'd/e/f', 's2', 'src', 'distx'])), sub = c.bool(0.05) ? '' : path.join(dir(c.weighted([[9, c.int(0, 3)], [1, c.int(20, 90)]])), seg());
    const noise = p => c.bool(0.3) ? p.replace(/\//g, () => c.pick(['/', '/', '//', '/./', '/zz/../'])) : p, tail = c.bool(0.2) ? '/' : '', isMakeDir = c.pick([undefined, false, true]);
    c.ev([src.replace(a, ''), dst.replace(a, ''), sub, isMakeDir, rel]); fs.mkdirSync(src, { recursive: true });
    const got = await destPath(noise(path.join(src, sub)), noise(src) + tail, noise(dst) + tail, isMakeDir === undefined ? undefined : { isMakeDir }), want = path.join(dst, sub);
    c.ok((sub ? got : got.replace(/\/$/, '')) === want, 'destPath', () => `destPath of ${sub} under ${src} to ${dst} is ${got}`);
    const made = fs.existsSync(path.dirname(want)); if (sub) c.eq(made, !!isMakeDir, 'destPath-made'); if (made) c.ok((fs.statSync(path.dirname(want)).mode & 0o700) === 0o700, 'destPath-mode', 'a folder was made that its owner cannot enter');
    ctx.stat('mapped'); fs.rmSync(a, { recursive: true });
  });
}
