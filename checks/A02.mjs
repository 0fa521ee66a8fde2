import { load } from '../lib/bundle.mjs';
export const rule = 'random forests of 0..60 nodes with random id types, random list orders, orphans and cycles, all key-name and container options; non-trivial: distinct list and options';
export const assumptions = ['ids are unique within a list (numbers and their decimal strings count as the same id)'];
export default async function (ctx) {
  const { toTree } = load('array');
  const gen = c => {
    const n = c.weighted([[5, c.int(0, 8)], [3, c.int(5, 30)], [1, c.int(30, 60)], [0.03, c.int(100, 1200)]]), names = c.shuffle(['.', '.5', '0.0', ' ', 'constructor', 'toString', '__proto__', 'a', 'b', 'hasOwnProperty', 'x y', '中', '-1', '1.5', 'valueOf', 'a.b']);
    const style = c.pick(['num', 'str', 'name', 'mixed']);
    const used = new Set(), ids = Array.from({ length: n }, (_, i) => { const v = style === 'num' ? i + 1 : style === 'str' ? 'id' + i : style === 'name' ? (names[i] ?? 'n' + i) : c.bool() ? i + 1 : String(i + 1); used.add(String(v)); return v; });
    return { n, ids, style };
  };
  const ref = (c, id, style) => style === 'mixed' && c.bool(0.3) ? (typeof id === 'number' ? String(id) : Number(id)) : id;
  await ctx.section('tree', ctx.n(5000), async c => {
    const { n, ids, style } = gen(c);
    const nested = c.bool(0.25), KID = c.pick(['id', 'key', nested ? c.pick(['m.id', '.id', 'm.', '.', 'm.n.o.p.q.id']) : c.pick(['a.id', '.id'])]), KP = c.pick(['parentId', 'up', nested ? c.pick(['m.up', '.up', 'm.x.', 'm.n.o.p.q.up']) : 'a.up']), CH = c.pick(['children', 'kids']), dataField = c.pick(['data', 'item', null, null]), assign = c.bool(0.3);
    const rootsOpt = c.pick([undefined, undefined, {}, { R: true, '': true }, { 0: false, Q: true }]);
    const rootVals = [null, undefined, ...(rootsOpt === undefined ? ['', 0, '0'] : Object.keys(rootsOpt).filter(k => rootsOpt[k]))];
    const mode = c.weighted([[6, 'forest'], [1, 'orphan'], [1, 'cycle'], [0.5, 'rootid']]), throwIfOrphans = c.bool(0.5);
    const parent = new Map(); // index -> index or null
    for (let i = 0; i < n; i++) parent.set(i, c.bool(0.25) || i === 0 ? null : c.int(0, i - 1));
    const orphans = new Set(), cyc = new Set();
    if (mode === 'orphan' && n) for (let k = 0, m = c.int(1, 2); k < m; k++) orphans.add(c.int(0, n - 1));
    if (mode === 'cycle' && n) { const a = c.int(0, n - 1); let top = a; const chain = [a]; while (parent.get(top) !== null) { top = parent.get(top); chain.push(top); } parent.set(top, a); cyc.add(a); }
    const setPath = (o, k, v) => { if (nested && k.includes('.')) { const ks = k.split('.'), y = ks.pop(); for (const x of ks) o = o[x] ||= {}; if (c.bool(0.1) && !(y in o)) Object.setPrototypeOf(o, { __proto__: Object.getPrototypeOf(o), [y]: v }); else o[y] = v; } else o[k] = v; };
    const items = [], raw = [];
    for (let i = 0; i < n; i++) {
      const o = { tag: i }; if (c.bool(0.1)) o[CH] = 'own'; if (nested) for (const k of [KID, KP]) if (k.includes('.') && c.bool(0.15)) o[k] = c.pick(['decoy', null, 0]); setPath(o, KID, ids[i]);
      let p = parent.get(i); const pv = orphans.has(i) ? 'missing' + c.int(0, 1) : p === null ? c.pick(rootVals) : ref(c, ids[p], style);
      if (pv !== undefined || c.bool()) setPath(o, KP, pv); else if (nested && KP.includes('.') && !(KP.split('.')[0] in o) && c.bool()) o[KP.split('.')[0]] = c.pick([0, '', false, null, 5, 'm', {}]); items.push(o);
    }
    if (mode === 'rootid' && n && rootVals.length > 2) { setPath(items[c.int(0, n - 1)], KID, c.pick(rootVals.slice(2))); }
    const order = c.shuffle(items.map((_, i) => i)), list = order.map(i => items[i]), copyOf = items.map(o => JSON.stringify(o));
    const opts = { id: KID, parentId: KP, childrenField: CH, dataField, assign, throwIfOrphans, ...(rootsOpt ? { rootParentIds: rootsOpt } : {}), ...(nested ? {} : { nestedIds: false }) };
    if (KID === 'id' && c.bool()) delete opts.id; if (KP === 'parentId' && c.bool()) delete opts.parentId; if (CH === 'children' && c.bool()) delete opts.childrenField; if (dataField === 'data' && c.bool()) delete opts.dataField; if (!assign && c.bool()) delete opts.assign; if (!throwIfOrphans && c.bool()) delete opts.throwIfOrphans;
    c.ev({ opts, list: list.map(o => JSON.stringify(o)) }); ctx.stat(mode);
    if (mode === 'rootid' && n && rootVals.length > 2) { c.throws(() => toTree(list, opts), 'root-id-in-use'); return; }
    // nodes that hang (transitively) below an orphan or a cycle are not part of the forest
    const lost = new Set(); for (let i = 0; i < n; i++) { let k = i, s = new Set(); while (k !== null && !s.has(k) && !orphans.has(k)) { s.add(k); k = parent.get(k); } if (k !== null) lost.add(i); }
    if (lost.size && throwIfOrphans) { c.throws(() => toTree(list, opts), 'orphan-not-reported'); return; }
    const forest = toTree(list, opts);
    const idx = t => { const o = dataField ? t[dataField] : t; return o === undefined || o === null ? undefined : o.tag; };
    const got = new Map(); let count = 0;
    (function walk(a, p) {
      c.ok(Array.isArray(a), 'children', 'children is not an array'); let last = -1;
      for (const t of a) {
        const i = idx(t); c.ok(i !== undefined, 'placeholder', 'a node without data is in the forest'); c.ok(!got.has(i), 'duplicate', `node ${i} appears twice`); got.set(i, p); count++; c.ok(count <= n, 'too-many', 'more nodes than items');
        const pos = order.indexOf(i); c.ok(pos > last, 'sibling-order', `siblings are not in input order at node ${i}`); last = pos;
        if (dataField) { c.ok(t[dataField] === items[i], 'data', 'data is not the item itself'); c.ok(Object.keys(t).length === 2, 'extra', 'unexpected keys in a node'); }
        else { c.ok(assign ? t === items[i] : t !== items[i], 'identity', 'assign option ignored'); const w = JSON.parse(copyOf[i]); delete w[CH]; for (const k of Object.keys(w)) c.ok(JSON.stringify(t[k]) === JSON.stringify(w[k]), 'value', `key ${k} changed`); c.ok(Object.keys(t).filter(k => k !== CH).length === Object.keys(items[i]).filter(k => k !== CH).length, 'keys', 'keys lost'); }
        walk(t[CH], i);
      }
    })(forest, null);
    for (let i = 0; i < n; i++) if (lost.has(i)) c.ok(!got.has(i), 'phantom', `node ${i} below an orphan or a cycle is in the forest`); else { c.ok(got.has(i), 'lost', `node ${i} is missing`); c.ok(got.get(i) === parent.get(i), 'parent', `node ${i} is under ${got.get(i)}, expected ${parent.get(i)}`); }
    if (dataField || !assign) items.forEach((o, i) => c.ok(JSON.stringify(o) === copyOf[i], 'input', 'an item was modified'));
  });
  // long chains and wide levels, in any order
  await ctx.section('deep', ctx.n(12, 4), async c => {
    const n = c.pick([100, 1000, 1025, 9000, 12000, 30000, 100001]), shape = c.pick(['chain', 'wide', 'comb']), throwIfOrphans = c.bool(0.7), bad = c.bool(0.2), up = i => i === 0 ? null : shape === 'chain' ? i - 1 : shape === 'wide' ? 0 : i % 2 ? i - 1 : i - 2, rev = c.pick(['in', 'back', 'mix']);
    let list = Array.from({ length: n }, (_, i) => ({ id: 'k' + i, parentId: up(i) === null ? null : 'k' + up(i) })); if (bad) list[n - 1].parentId = 'gone'; const src = list.slice(); list = rev === 'in' ? list : rev === 'back' ? list.reverse() : c.shuffle(list); c.ev({ n, shape, throwIfOrphans, bad, rev }); ctx.statMax('longest_chain', shape === 'wide' ? 2 : n);
    if (bad && throwIfOrphans) { const e = c.throws(() => toTree(list, { throwIfOrphans }), 'orphan-not-reported'); c.ok(!(e instanceof RangeError), 'depth', () => `toTree of ${n} nodes: ${e.message}`); return; }
    let f; try { f = toTree(list, { throwIfOrphans }); } catch (e) { c.fail('depth', `toTree of ${n} nodes (${shape}): ${e.message}`); }
    const at = new Map(), stack = f.map(t => [t, null]); while (stack.length) { const [t, p] = stack.pop(); c.ok(!at.has(t.data.id), 'duplicate', 'a node appears twice'); at.set(t.data.id, p); for (const k of t.children) stack.push([k, t.data.id]); }
    c.eq(at.size, bad ? n - 1 : n, 'lost'); for (const [id, p] of at) { const i = +id.slice(1); c.ok(p === (up(i) === null ? null : 'k' + up(i)), 'parent', `node ${id} is under ${p}`); }
  });
}
