import { load } from '../lib/bundle.mjs';
export const rule = 'random stage lists, argument lists (any values) and argument splittings; stages log each invocation, may throw; non-trivial: distinct (combinator, stages, arguments, splitting)';
export default async function (ctx) {
  const F = load('function');
  const vals = [undefined, null, 0, -0, NaN, 'x', { o: 1 }, [1], true, () => 1, Promise.resolve(1), new Error('value'), Symbol('s'), '', false, { then: 1 }, 10n];
  await ctx.section('compose', ctx.n(2000), async c => {
    const n = c.bool(0.1) ? c.pick([16, 33, 65, 200]) : c.int(2, 9), log = [], bad = c.bool(0.2) ? c.int(0, n - 1) : -1, outs = Array.from({ length: n }, () => c.pick(vals)), err = new Error('s');
    const f = F.compose(...outs.map((o, i) => (...a) => { log.push([i, a]); if (i === bad) throw err; return o; }));
    for (let rep = 0; rep < 2; rep++) {
      log.length = 0; const x = c.pick(vals); let got, e; try { got = f(x); } catch (y) { e = y; }
      const upto = bad < 0 ? n : bad + 1; c.ok(log.length === upto, 'stage-count', () => `${log.length} stages ran, expected ${upto}`);
      log.forEach(([i, a], k) => c.ok(i === k && a.length >= 1 && Object.is(a[0], k ? outs[k - 1] : x), 'stage-order', () => `stage ${k}`));
      if (bad < 0) c.ok(Object.is(got, outs[n - 1]), 'compose-value', 'wrong result'); else c.ok(e === err, 'compose-error', 'error not propagated');
      c.ev({ n, bad, outs: outs.map(String), x });
    }
  });
  const pairs = {
    before: { first: 'hook', hookPre: true, target: 'args', ret: 'target' }, after: { first: 'target', ret: 'target' }, withBefore: {}, withAfter: {}, applyBefore: {}, applyAfter: {},
  };
  await ctx.section('hooks', ctx.n(3000), async c => {
    const name = c.pick(Object.keys(pairs)), log = [], hookRet = c.pick(vals), tgtRet = c.pick(vals), err = new Error('x'), bad = c.bool(0.2) ? c.pick(['hook', 'target']) : null;
    const hook = (...a) => { log.push(['hook', a]); if (bad === 'hook') throw err; return hookRet; }, target = (...a) => { log.push(['target', a]); if (bad === 'target') throw err; return tgtRet; };
    const pre = c.arr(0, c.pick([3, 3, 10]), () => c.pick(vals)), args = c.arr(0, c.pick([3, 3, 10]), () => c.pick(vals));
    const w = name === 'withBefore' || name === 'applyBefore' ? F[name](hook) : F[name](hook, ...pre);
    const want = { before: { log: [['hook', pre], ['target', args]], ret: tgtRet }, after: { log: [['target', args], ['hook', pre]], ret: tgtRet },
      withBefore: { log: [['hook', args], ['target', [hookRet]]], ret: hookRet }, applyBefore: { log: [['hook', args], ['target', [hookRet]]], ret: tgtRet },
      withAfter: { log: [['target', args], ['hook', [tgtRet, ...pre]]], ret: tgtRet }, applyAfter: { log: [['target', args], ['hook', [tgtRet, ...pre]]], ret: hookRet } }[name];
    for (let rep = 0; rep < 2; rep++) {
      log.length = 0; let got, e; try { got = w(target, ...args); } catch (x) { e = x; }
      c.ev({ name, bad, pre, args, hookRet, tgtRet, rep });
      let steps = want.log; if (bad) { const k = steps.findIndex(s => s[0] === bad); steps = steps.slice(0, k + 1); }
      c.ok(log.length === steps.length, 'stage-count', () => `${name}: ${log.map(l => l[0])}`);
      steps.forEach(([t, a], k) => c.ok(log[k][0] === t && log[k][1].length === a.length && a.every((v, j) => Object.is(v, log[k][1][j])), 'stage-args', () => `${name}: stage ${k} is ${log[k][0]} with ${log[k][1].length} arguments`));
      if (bad) c.ok(e === err, 'hook-error', 'error not propagated'); else c.ok(Object.is(got, want.ret), 'hook-value', () => `${name}: wrong result ${String(got)}`);
    }
  });
  await ctx.section('currying', ctx.n(4000), async c => {
    const n = c.int(0, 6), log = [], ret = c.pick(vals);
    const body = (...a) => { log.push(a); return ret; };
    const f = [() => body(), a => body(a), (a, b) => body(a, b), (a, b, d) => body(a, b, d), (a, b, d, e) => body(a, b, d, e), (a, b, d, e, g) => body(a, b, d, e, g), (a, b, d, e, g, h) => body(a, b, d, e, g, h)][n];
    const args = Array.from({ length: n }, () => c.pick(vals)), curried = F.currying(f);
    const run = () => { let cur = curried, i = 0; const chunks = []; if (n === 0) { chunks.push(0); cur = cur(); }
      while (i < n) { const k = c.weighted([[5, 1], [3, c.int(1, n - i)], [1, 0]]); chunks.push(k); c.ok(typeof cur === 'function', 'curry-early', () => `not a function after ${chunks} of ${n} arguments`); c.ok(log.length === 0, 'curry-early-run', 'ran before all arguments'); cur = cur(...args.slice(i, i + k)); i += k; }
      c.ev({ n, chunks: chunks.join(), args }); c.ok(log.length === 1 && log[0].length === n && args.every((v, j) => Object.is(v, log[0][j])), 'curry-args', () => `chunks ${chunks}: ran ${log.length} times with ${log[0] && log[0].length} arguments`); c.ok(Object.is(cur, ret), 'curry-value', 'wrong result'); log.length = 0; };
    run(); run();
    if (n > 1) { // partial applications are reusable
      const part = curried(args[0]); const rest = args.slice(1); for (let k = 0; k < 2; k++) { log.length = 0; const alt = rest.map(() => c.pick(vals)); c.ok(Object.is(part(...alt), ret), 'curry-reuse', 'partial application not reusable'); c.ok(log.length === 1 && Object.is(log[0][0], args[0]) && alt.every((v, j) => Object.is(v, log[0][j + 1])), 'curry-reuse-args', 'reused partial application mixed arguments'); }
    }
  });
  await ctx.section('bind', ctx.n(600), async c => {
    const self = c.pick([{ s: 1 }, [], null, 5, undefined, () => 1]), other = {}, args = c.arr(0, c.pick([4, 4, 12]), () => c.pick(vals)), ret = c.pick(vals), log = []; const f = function (...a) { log.push([this, a]); return ret; };
    const b = F.bind(f, self); for (let k = 0; k < 2; k++) { const got = k ? b.apply(other, args) : b(...args); c.ev({ self, args, ret, k }); c.ok(Object.is(got, ret) && log.length === k + 1 && Object.is(log[k][0], self) && log[k][1].length === args.length && args.every((v, j) => Object.is(v, log[k][1][j])), 'bind', 'this, arguments or result changed'); }
  });
}
