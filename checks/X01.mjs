import fs from 'node:fs';
import path from 'node:path';
import { load, scratch } from '../lib/bundle.mjs';
import { genTree, makeTree, snap, expectTree, diff, area, bytes } from '../lib/tree.mjs';
export const rule = 'random source trees (files, folders, links inside, outside, dangling, to parents) copied onto absent, empty and partly filled destinations in both modes, absolutely and relatively; non-trivial: distinct (tree, destination, mode)';
export const assumptions = ['no entry of the destination is a link or a different kind of entry at the same path', 'runs as an unprivileged user in a scratch directory'];
export default async function (ctx) {
  const { copy, copySymbolicLink, copyFile } = load('fs');
  const base = path.join(scratch(), 'x01'); fs.mkdirSync(base); fs.chmodSync(base, 0o777);
  ctx.unprivileged(); process.chdir(base);
  const setup = c => { const a = area(base); fs.mkdirSync(path.join(a, 'outside/dir'), { recursive: true }); fs.writeFileSync(path.join(a, 'outside/file'), 'outside'); fs.writeFileSync(path.join(a, 'outside/dir/inner'), 'inner'); return a; };
  const links = a => [() => path.join(a, 'outside/file'), () => path.join(a, 'outside/dir'), () => '../outside/file', () => 'a', () => 'nowhere', () => '.', () => '..', () => path.join(a, 'src'), p => path.basename(p) + 'x', () => 'dist/x', () => 'a/', () => path.join(a, 'outside/dir') + '/', () => ' sp ', () => 'e\u0301t', () => './a/../b', () => 'a//b', () => '%41\n'];
  const show = t => [...t].map(([p, e]) => e.t + ' ' + p + (e.t === 'l' ? '->' + e.to : e.t === 'f' ? '(' + e.data.length + ')' : '')).join(', ');
  await ctx.section('copy-tree', ctx.n(700, 12), async c => {
    const a = setup(c), src = path.join(a, 'src'), dst = path.join(a, c.pick(['dst', 'deep/er/dst', 'src2', 'srcx/y'])), tree = genTree(c, { links: links(a), depth: c.int(0, 3) });
    makeTree(src, tree); const strict = c.bool(0.2), modes = () => { for (const [p, e] of [['', { t: 'd' }], ...tree].reverse()) if (e.t !== 'l') fs.chmodSync(path.join(src, p), e.t === "d" ? 0o555 : 0o444); };
    const mode = c.int(0, 3), forcibly = c.pick([undefined, true, false]), old = new Map();
    if (mode > 0) fs.mkdirSync(dst, { recursive: true });
    if (mode > 1) {
      // a destination that already holds other entries and some of the same files and folders
      for (const [p, e] of tree) if (e.t !== 'l' && c.bool(0.5)) { const par = path.dirname(p); if (par === '.' || old.has(par)) old.set(p, e.t === 'd' ? e : { t: 'f', data: bytes(c, c.pick([0, e.data.length, 7, 900])) }); }
      for (const par of ['', ...[...old].filter(x => x[1].t === 'd').map(x => x[0])]) if (c.bool(0.4)) old.set(path.join(par, 'keep' + c.int(0, 9)), c.bool(0.7) ? { t: 'f', data: bytes(c, 9) } : { t: 'd' });
      makeTree(dst, old);
    }
    c.ev([show(tree), mode > 0 ? show(old) : null, forcibly, strict]); if (strict) { modes(); ctx.stat('read_only_sources'); }
    const before = snap(src, { modes: true, times: true }), out = snap(path.join(a, 'outside'), { times: true });
    const rel = c.bool(0.3), P = x => rel ? path.relative(process.cwd(), x) : x, sl = c.bool(0.1) ? '/' : '';
    const r = await copy(P(src) + sl, P(dst) + sl, forcibly === undefined ? c.pick([undefined, {}]) : { forcibly });
    c.eq(r, undefined, 'result');
    const want = { ...expectTree(old) }; for (const [p, v] of Object.entries(expectTree(tree))) if (!(forcibly === false && old.has(p))) want[p] = v;
    const d = diff(want, snap(dst)); c.ok(!d.length, 'destination', () => `after copy of {${show(tree)}} onto {${show(old)}} (forcibly ${forcibly}): ${d.slice(0, 4).join('; ')}`);
    c.ok(!diff(before, snap(src, { modes: true, times: true })).length, 'source', () => `copy changed its source: ${diff(before, snap(src, { modes: true, times: true })).slice(0, 3)}`);
    c.ok(!diff(out, snap(path.join(a, 'outside'), { times: true })).length, 'outside', 'copy changed an entry outside source and destination');
    for (const [p, v] of Object.entries(snap(dst, { modes: true }))) if (v.startsWith('d')) c.ok((parseInt(v.split(':')[1], 8) & 0o700) === 0o700, 'enterable', () => `folder ${p} of the copy has mode ${v.split(':')[1]}`);
    ctx.stat('entries', tree.size); ctx.stat('links', [...tree.values()].filter(e => e.t === 'l').length); if (old.size) ctx.stat('merged'); if (strict) for (const [p, e] of [['', { t: 'd' }], ...tree]) if (e.t !== 'l') fs.chmodSync(path.join(src, p), 0o755);
    fs.rmSync(a, { recursive: true });
  });
  await ctx.section('copy-one', ctx.n(500, 12), async c => {
    const a = setup(c), kind = c.pick(['file', 'link', 'missing', 'fifo-like']), from = path.join(a, 'from'), to = path.join(a, c.pick(['to', 'x/y/to'])), data = bytes(c, c.pick([0, 3, 70000]));
    const forcibly = c.pick([undefined, true, false]), opt = forcibly === undefined ? undefined : { forcibly }, exist = c.bool(0.4);
    c.ev([kind, data.length, forcibly, exist, to.length]);
    if (kind === 'file') {
      fs.writeFileSync(from, data); if (exist) { fs.mkdirSync(path.dirname(to), { recursive: true }); fs.writeFileSync(to, 'old'); }
      await copy(from, to, opt); const want = exist && forcibly === false ? Buffer.from('old') : data;
      c.ok(fs.readFileSync(to).equals(want), 'file', () => `copy of a file of ${data.length} bytes (existing ${exist}, forcibly ${forcibly}) left ${fs.readFileSync(to).length} bytes`); c.ok(fs.readFileSync(from).equals(data), 'source', 'copy changed the file it copied');
    } else if (kind === 'link') {
      const t = c.pick(links(a))('from'); fs.symlinkSync(t, from); const rel = c.bool(), P = x => rel ? path.relative(process.cwd(), x) : x;
      await c.pick([() => copy(P(from), P(to), opt), () => copySymbolicLink(P(from), P(to))])();
      c.ok(fs.lstatSync(to).isSymbolicLink() && fs.readlinkSync(to) === t, 'link', () => `the copy of a link to ${t} is ${fs.lstatSync(to).isSymbolicLink() ? 'a link to ' + fs.readlinkSync(to) : 'no link'}`);
      c.eq(fs.readlinkSync(from), t, 'source'); ctx.stat('single_links');
    } else if (kind === 'missing') {
      await c.rejects(copy(from, to, opt), 'missing'); await c.rejects(copySymbolicLink(from, to), 'missing-link'); c.ok(!fs.existsSync(to), 'created', 'a failed copy created its destination');
    } else {
      fs.mkdirSync(from); fs.writeFileSync(path.join(from, 'f'), 'f'); fs.mkdirSync(path.dirname(to), { recursive: true }); fs.writeFileSync(to, 'occupied');
      await c.rejects(copy(from, to, opt), 'occupied'); c.eq(fs.readFileSync(to, 'utf8'), 'occupied', 'occupied-kept'); await c.rejects(copySymbolicLink(from, path.join(a, 'l2')), 'not-a-link'); c.ok(!fs.existsSync(path.join(a, 'l2')), 'not-a-link-created', 'made a link from a folder');
    }
    fs.rmSync(a, { recursive: true });
  });
  // many entries, deep folders, large files
  await ctx.section('copy-large', 5, async (c, i) => {
    const a = setup(c), src = path.join(a, 'src'), dst = path.join(a, 'dst'), n = [1100, 20, 20, 300, 5][i], deep = [2, 130, 30, 66, 3][i], sizes = [[0], [1, 65536], [9], [0, 7], [65535, 65537, 1 << 20, (1 << 22) + 1, 5e6]][i], tree = new Map(); c.ev([n, deep]);
    let p = ''; for (let k = 0; k < deep; k++) { p = p ? p + '/d' : 'd'; tree.set(p, { t: 'd' }); tree.set(p + '/f', { t: 'f', data: bytes(c, 3) }); } for (let k = 0; k < n; k++) tree.set('e' + k, k % 9 === 4 ? { t: 'l', to: 'e' + (k + 1) } : k % 50 === 7 ? { t: 'd' } : { t: 'f', data: bytes(c, sizes[k % sizes.length]) });
    makeTree(src, tree); const before = snap(src, { modes: true, times: true }); await copy(src, dst, i % 2 ? { forcibly: false } : undefined); const d = diff(expectTree(tree), snap(dst)); c.ok(!d.length, 'destination-large', () => `after the copy of ${tree.size} entries: ${d.length} differ, first ${String(d[0]).slice(0, 100)}`); c.ok(!diff(before, snap(src, { modes: true, times: true })).length, 'source', 'copy changed its source'); ctx.statMax('largest_tree', tree.size); fs.rmSync(a, { recursive: true });
  });
  // a destination inside the source can never be complete: refused, with nothing changed
  await ctx.section('inside', ctx.n(60, 8), async c => {
    const a = setup(c), src = path.join(a, 'src'), sub = c.pick(['x', 'a/b', 'dist/src', '..x', '...', ' ']), tree = genTree(c, { links: links(a), depth: 2 }); makeTree(src, tree); if (sub.split('/').some((_, i, s) => (tree.get(s.slice(0, i + 1).join('/')) ?? { t: 'd' }).t === 'l')) return fs.rmSync(a, { recursive: true }); if (c.bool(0.3) && !tree.has('..x')) fs.mkdirSync(path.join(src, '..x'));
    const rel = c.bool(), P = x => rel ? path.relative(process.cwd(), x) : x, to = P(src) + c.pick(['/', '//', '/./', '/../src/']) + sub, before = snap(a, { times: true }); c.ev([show(tree), sub, rel]);
    await c.rejects(copy(P(src), to, c.pick([undefined, { forcibly: false }])), 'inside-source'); const d = diff(before, snap(a, { times: true })); c.ok(!d.length, 'inside-changed', () => `copy into a folder inside its source changed ${d.slice(0, 3)}`);
    fs.rmSync(a, { recursive: true });
  });
  await ctx.section('copy-file', ctx.n(700, 12), async c => {
    const a = setup(c), src = path.join(a, 'src'), dst = path.join(a, 'dst'), rel = c.pick(['f', 'd/f', 'd/e/中 文.txt']), from = path.join(src, rel), to = path.join(dst, rel), data = bytes(c, c.pick([0, 1, 512, 513, 3000]));
    const kind = c.pick(['plain', 'plain', 'same', 'differs', 'padded', 'readonly', 'dir-in-way', 'missing', 'folder']), forcibly = c.pick([undefined, true, false]), opt = forcibly === undefined ? c.pick([undefined, {}]) : { forcibly };
    c.ev([rel, kind, data.length, forcibly]); ctx.stat('copyFile_' + kind);
    fs.mkdirSync(path.dirname(from), { recursive: true }); if (kind === 'folder') { fs.mkdirSync(from); fs.writeFileSync(path.join(from, 'inner'), 'x'); } else if (kind !== 'missing') fs.writeFileSync(from, data);
    fs.writeFileSync(path.join(src, 'other'), 'other'); fs.mkdirSync(dst); fs.writeFileSync(path.join(dst, 'other'), 'dst other');
    if (kind !== 'plain') fs.mkdirSync(path.dirname(to), { recursive: true });
    const oldTo = { same: data, differs: bytes(c, data.length + 1), padded: Buffer.concat([data, Buffer.alloc(c.int(1, 20))]), readonly: Buffer.from('old content'), missing: Buffer.from('precious') }[kind];
    if (oldTo) fs.writeFileSync(to, oldTo); if (kind === 'readonly') fs.chmodSync(to, 0o444); if (kind === 'dir-in-way') fs.mkdirSync(to);
    const before = snap(src, { times: true }); let err, r; try { r = await copyFile(from, src, dst, opt); } catch (e) { err = e; }
    const dd = diff(before, snap(src, { times: true })); c.ok(!dd.length, 'copyFile-source', () => `copyFile (${kind}, forcibly ${forcibly}) changed its source: ${dd.join('; ')}`);
    c.eq(fs.readFileSync(path.join(dst, 'other'), 'utf8'), 'dst other', 'copyFile-other');
    const must = ['plain', 'same', 'differs', 'padded'].includes(kind) || kind === 'readonly' && forcibly !== false;
    if (must) { c.ok(!err, 'copyFile-failed', () => `copyFile (${kind}) failed: ${err}`); c.eq(r, to, 'copyFile-result'); }
    if (['missing', 'folder'].includes(kind)) c.ok(err, 'copyFile-invalid', () => `copyFile of a ${kind} source resolved`);
    if (!err) c.ok(fs.readFileSync(to).equals(data), 'copyFile-content', () => `copyFile (${kind}) resolved but the file differs`);
    if (kind === 'missing') c.ok(fs.existsSync(to) && fs.readFileSync(to).equals(oldTo), 'copyFile-lost', 'copyFile of a missing file removed the existing destination');
    fs.rmSync(a, { recursive: true });
  });
}
