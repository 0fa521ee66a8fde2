import fs from 'node:fs';
import path from 'node:path';
import { load, scratch } from '../lib/bundle.mjs';
import { genTree, makeTree, snap, diff, area } from '../lib/tree.mjs';
export const rule = 'random trees with links to files and folders outside, inside, dangling and to parents, one entry deleted or one folder emptied per case, plus invalid paths; non-trivial: distinct (tree, entry, operation)';
export const assumptions = ['runs as an unprivileged user in a scratch directory; every link points into the scratch directory or nowhere'];
export default async function (ctx) {
  const { deleteOne, clearDir } = load('fs');
  const base = path.join(scratch(), 'x02'); fs.mkdirSync(base); fs.chmodSync(base, 0o777);
  ctx.unprivileged(); fs.mkdirSync(path.join(base, 'cwd/a/b'), { recursive: true }); process.chdir(path.join(base, 'cwd'));
  for (const n of ['a/x', 'b', 'c', 'd.txt', 'x.js', '.hidden', 'src', 'dist', 'undefined', 'null']) fs.writeFileSync(path.join(base, 'cwd', n), 'cwd ' + n);
  const cwd0 = snap(path.join(base, 'cwd'), { times: true });
  const without = (s, p) => Object.fromEntries(Object.entries(s).filter(([k]) => k !== p && !k.startsWith(p + '/')));
  const setup = (c, opt = {}) => {
    const a = area(base), o = path.join(a, 'outside'); fs.mkdirSync(path.join(o, 'dir/sub'), { recursive: true }); fs.writeFileSync(path.join(o, 'file'), 'o'); fs.writeFileSync(path.join(o, 'dir/inner'), 'i'); fs.writeFileSync(path.join(o, 'dir/sub/deep'), 'd'); fs.symlinkSync('../file', path.join(o, 'dir/lnk'));
    const links = [() => path.join(o, 'file'), () => path.join(o, 'dir'), () => path.join(o, 'dir'), () => '../outside/dir', () => 'a', () => 'nowhere', () => '.', () => '..', () => path.join(a, 'work'), () => 'dist', () => '../work2'];
    const tree = genTree(c, { links, depth: 3, width: 5, ...opt }), w2 = genTree(c, { links, depth: 1, width: 3 });
    makeTree(path.join(a, 'work'), tree); makeTree(path.join(a, 'work2'), w2); return { a, tree };
  };
  const show = t => [...t].map(([p, e]) => e.t + ' ' + p + (e.t === 'l' ? '->' + e.to.replace(/^.*\/area\d+\//, '/') : '')).join(', ');
  const kindOf = (a, p) => { const f = path.join(a, p), l = fs.lstatSync(f); if (!l.isSymbolicLink()) return l.isDirectory() ? 'folder' : 'file'; try { return fs.statSync(f).isDirectory() ? 'link-to-folder' : 'link-to-file'; } catch { return 'dangling-link'; } };
  const inCwd = c => c.ok(!diff(cwd0, snap(path.join(base, 'cwd'), { times: true })).length, 'cwd', () => 'deletion changed the working directory: ' + diff(cwd0, snap(path.join(base, 'cwd'), { times: true })).slice(0, 3));
  // a folder that cannot be emptied (no write permission): the call rejects and the rest stays
  await ctx.section('denied', ctx.n(60, 8), async c => {
    const { a } = setup(c, { width: 0 }), d = path.join(a, 'work/locked'); fs.mkdirSync(d); fs.writeFileSync(path.join(d, 'f'), 'x'); fs.chmodSync(d, 0o555); const before = snap(a); c.ev(a.length);
    if (process.getuid() !== 0) { await c.rejects(deleteOne(path.join(d, 'f')), 'denied'); await c.rejects(clearDir(d), 'denied-clear'); await c.rejects(deleteOne(d), 'denied-tree'); await c.rejects(deleteOne(path.join(a, 'work')), 'denied-inside'); await c.rejects(clearDir(path.join(a, 'work')), 'denied-clear-inside'); c.ok(!diff(before, snap(a)).length, 'denied-changed', 'a denied deletion changed something'); ctx.stat('denied'); }
    fs.chmodSync(d, 0o755); fs.rmSync(a, { recursive: true });
  });
  await ctx.section('delete', ctx.n(1500, 12), async c => {
    const { a, tree } = setup(c); if (!tree.size) { fs.rmSync(a, { recursive: true }); return; }
    const lk = [...tree].filter(x => x[1].t === 'l'), p = c.bool(0.5) && lk.length ? c.pick(lk)[0] : c.pick([...tree.keys()]), v = 'work/' + p, k = kindOf(a, v);
    c.ev([show(tree), p]); ctx.stat('deleted_' + k);
    const before = snap(a), rel = c.bool(0.4), target = rel ? path.relative(process.cwd(), path.join(a, v)) : path.join(a, v);
    let err; try { c.eq(await deleteOne(target), undefined, 'result'); } catch (e) { if (e.key) throw e; err = e; }
    c.ok(!err, 'failed', () => `deleteOne of a ${k} (${p}) failed: ${err && err.message}`);
    const d = diff(without(before, v), snap(a)); c.ok(!d.length, 'exact', () => `deleteOne of a ${k} (${p}) in {${show(tree)}}: ${d.slice(0, 4).join('; ')}`);
    await c.rejects(deleteOne(target), 'gone', 'an entry that is gone'); c.ok(!diff(without(before, v), snap(a)).length, 'gone-exact', 'deleting a missing entry changed something'); inCwd(c);
    fs.rmSync(a, { recursive: true });
  });
  await ctx.section('clear', ctx.n(1000, 12), async c => {
    const { a, tree } = setup(c), dirs = ['', ...[...tree].filter(x => x[1].t === 'd').map(x => x[0])], d = c.bool(0.5) ? '' : c.pick(dirs), v = d ? 'work/' + d : 'work';
    c.ev([show(tree), d]); const before = snap(a), st = fs.lstatSync(path.join(a, v)), n = Object.keys(before).filter(k => k.startsWith(v + '/')).length;
    const rel = c.bool(0.4), target = (rel ? path.relative(process.cwd(), path.join(a, v)) : path.join(a, v)) + (c.bool(0.2) ? '/' : '');
    let err; try { c.eq(await clearDir(target), undefined, 'result'); } catch (e) { if (e.key) throw e; err = e; }
    c.ok(!err, 'clear-failed', () => `clearDir of {${show(tree)}} (${d}) failed: ${err && err.message}`);
    const want = Object.fromEntries(Object.entries(before).filter(([k]) => !k.startsWith(v + '/'))), df = diff(want, snap(a));
    c.ok(!df.length, 'clear-exact', () => `clearDir of ${d || 'the root'} in {${show(tree)}}: ${df.slice(0, 4).join('; ')}`); c.eq(fs.lstatSync(path.join(a, v)).ino, st.ino, 'clear-kept');
    ctx.stat('cleared', n); inCwd(c); fs.rmSync(a, { recursive: true });
  });
  await ctx.section('clear-many', ctx.n(8, 8), async c => { const { a } = setup(c, { width: 0 }), w = path.join(a, 'work'), n = c.int(50, 300); for (let i = 0; i < n; i++) i % 3 ? fs.writeFileSync(path.join(w, 'f' + i), '') : fs.symlinkSync(path.join(a, i % 2 ? 'outside' : 'none'), path.join(w, 'l' + i)); c.ev(n); const before = snap(path.join(a, 'outside')); await clearDir(w); c.eq(fs.readdirSync(w), [], 'clear-many'); c.ok(!diff(before, snap(path.join(a, 'outside'))).length, 'clear-many-outside', 'clearDir reached through a link'); fs.rmSync(a, { recursive: true }); });
  await ctx.section('sizes', 5, async (c, i) => {
    const { a } = setup(c, { width: 0 }), w = path.join(a, 'work'), n = [1001, 1025, 4097, 70, 2500][i], deep = [0, 3, 1, 150, 300][i], o = path.join(a, 'outside'); c.ev([n, deep]);
    const fill = d => { fs.mkdirSync(d, { recursive: true }); for (let k = 0; k < n; k++) k % 3 ? fs.writeFileSync(path.join(d, 'f' + k), '') : k % 2 ? fs.mkdirSync(path.join(d, 'f' + k)) : fs.symlinkSync(k % 4 ? o : 'none', path.join(d, 'f' + k)); let p = d; for (let k = 0; k < deep; k++) { p += '/d'; } fs.mkdirSync(p, { recursive: true }); fs.symlinkSync(o, path.join(p, 'last')); };
    fill(path.join(w, 'x')); fill(path.join(w, 'y')); const before = snap(o); await clearDir(path.join(w, 'x')); c.eq(fs.readdirSync(path.join(w, 'x')).length, 0, 'clear-sizes', n); await deleteOne(path.join(w, 'y')); c.eq(fs.readdirSync(w), ['x'], 'delete-sizes', n); c.ok(!diff(before, snap(o)).length, 'sizes-outside', 'a deletion reached through a link'); fs.rmSync(a, { recursive: true });
  });
  await ctx.section('invalid', ctx.n(600, 12), async c => {
    const { a, tree } = setup(c), files = [...tree].filter(x => x[1].t === 'f').map(x => x[0]), w = path.join(a, 'work'), before = snap(a);
    const bad = c.pick([() => path.join(w, 'missing'), () => path.join(w, 'missing/deep'), () => '', () => path.join(w, '\0'), () => files.length ? path.join(w, c.pick(files), 'below') : path.join(w, 'none'), () => w + 'x', () => path.join(w, 'a'.repeat(300)), () => undefined, () => null, () => 12345])();
    c.ev([show(tree), String(bad).replace(a, '')]);
    await c.rejects(deleteOne(bad), 'delete-invalid', String(bad)); await c.rejects(clearDir(bad), 'clear-invalid', String(bad));
    if (files.length) await c.rejects(clearDir(path.join(w, c.pick(files))), 'clear-file', 'a file');
    c.ok(!diff(before, snap(a)).length, 'invalid-changed', () => `an invalid path deleted something: ${diff(before, snap(a)).slice(0, 3)}`); inCwd(c); ctx.stat('rejected'); fs.rmSync(a, { recursive: true });
  });
}
