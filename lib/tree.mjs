// File trees in a scratch directory: generation, creation, snapshots.
import fs from 'node:fs';
import path from 'node:path';
const NAMES = ['a', 'b', 'c', 'd.txt', 'x.js', '.hidden', 'with space', '中文', '-rf', '..x', 'A', 'node_modules', 'dist', "q'uote", 'très', '$HOME', '*', 'a.b.c', 'src', ' lead', 'trail ', 'e\u0301t', '.DS_Store', '.git', 'Thumbs.db', 'package.json', 'a\nb', 'undefined', '~', 'w'.repeat(200), '-', '%2e', '#'];
/** random tree: relative path -> { t: 'f', data } | { t: 'd' } | { t: 'l', to } */
export function genTree(c, { depth = 3, width = 4, links = [], names = NAMES, sizes = [0, 1, 5, 100, 511, 512, 513, 5000] } = {}) {
  const out = new Map();
  (function dir(rel, d) {
    for (const n of c.shuffle(names.slice()).slice(0, c.int(0, width))) {
      const p = rel ? rel + '/' + n : n, k = c.int(0, 9);
      if (k < 4 || d <= 0) out.set(p, { t: 'f', data: bytes(c, c.pick(sizes)) });
      else if (k < 8 || !links.length) { out.set(p, { t: 'd' }); dir(p, d - 1); }
      else out.set(p, { t: 'l', to: c.pick(links)(p) });
    }
  })('', depth);
  return out;
}
export const bytes = (c, n) => { const b = Buffer.alloc(n); const mode = c.int(0, 3); for (let i = 0; i < n; i++) b[i] = mode === 0 ? 0 : mode === 1 ? c.int(0, 255) : c.int(97, 122); return b; };
export function makeTree(root, tree) {
  fs.mkdirSync(root, { recursive: true });
  for (const [p, e] of tree) {
    const f = path.join(root, p);
    if (e.t === 'd') fs.mkdirSync(f); else if (e.t === 'f') fs.writeFileSync(f, e.data); else fs.symlinkSync(e.to, f);
  }
}
/** what is there: relative path -> 'd' | 'f:<hex>' | 'l:<target>' (modes optional) */
export function snap(root, { modes = false, times = false } = {}) {
  const out = {};
  (function walk(rel) {
    for (const n of fs.readdirSync(path.join(root, rel)).sort()) {
      const p = rel ? rel + '/' + n : n, f = path.join(root, p), st = fs.lstatSync(f);
      let v;
      if (st.isSymbolicLink()) v = 'l:' + fs.readlinkSync(f); else if (st.isDirectory()) { v = 'd'; } else if (st.isFile()) { let b; try { b = fs.readFileSync(f); } catch { b = null; } v = 'f:' + (b ? b.length + ':' + b.toString('latin1') : '?'); } else v = 'other';
      if (modes && !st.isSymbolicLink()) v += ':' + (st.mode & 0o7777).toString(8);
      if (times) v += ':' + st.mtimeMs + ':' + st.ino;
      out[p] = v; if (st.isDirectory()) walk(p);
    }
  })('');
  return out;
}
export const expectTree = tree => Object.fromEntries([...tree].map(([p, e]) => [p, e.t === 'd' ? 'd' : e.t === 'f' ? `f:${e.data.length}:${e.data.toString('latin1')}` : 'l:' + e.to]));
export function diff(a, b) { const d = []; for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) if (a[k] !== b[k]) d.push(`${k}: ${cut(a[k])} -> ${cut(b[k])}`); return d; }
const cut = x => x === undefined ? '(absent)' : x.slice(0, 40);
let seq = 0;
export function area(base) { const d = path.join(base, 'area' + ++seq); fs.mkdirSync(d, { recursive: true }); return d; }
export const openFds = () => fs.readdirSync('/proc/self/fd').length;
/** waits until at most n descriptors are open (closing is asynchronous); the number still open after 5 s */
export async function settleFds(n) { const end = performance.now() + 5000; let k; while ((k = openFds()) > n && performance.now() < end) await new Promise(r => setTimeout(r, 3)); return k; }
