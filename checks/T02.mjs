import { load } from '../lib/bundle.mjs';
import { Term } from '../lib/vt.mjs';
export const rule = 'random call sequences on one or two bars over random totals and display options, every byte written to stdout interpreted by a terminal model starting at a random row of a filled screen; non-trivial: distinct histories';
export const assumptions = ['values fit on one terminal line and hold no line break', 'what a bar shows beyond its total is only checked for the count'];
export default async function (ctx) {
  const m = load('term'), real = process.stdout.write; let sink = null;
  process.stdout.write = function (s, ...r) { if (sink) { sink.push(String(s)); return true; } return real.call(this, s, ...r); };
  const capture = f => { sink = []; try { return [f(), sink.join(''), sink.length]; } finally { sink = null; } };
  const play = c => {
    const total = c.pick([undefined, NaN, -1, -5, 1.5, Infinity, '3', null, 0, 1, 1, 2, 3, 7, 10, 10, 30, 100, 100, c.int(1, 400), 2 ** 53 - 1, 2 ** 53]), o = {};
    if (total !== undefined || c.bool()) o.total = total;
    for (const k of ['percentage', 'count', 'picture', 'hiddenCursor']) if (c.bool(0.4)) o[k] = c.bool();
    const given = c.bool(0.1) && total === undefined ? undefined : o, eff = { percentage: true, count: true, picture: true, hiddenCursor: true, ...given };
    return { total, given, eff, finite: Number.isSafeInteger(total) && total >= 0 };
  };
  await ctx.section('history', ctx.n(2500), async c => {
    const bars = Array.from({ length: c.bool(0.25) ? 2 : 1 }, () => play(c)), hist = []; c.last = [bars.map(b => b.given), hist];
    const R = c.int(2, 8), C = 160, t = new Term(R, C); for (let r = 1; r <= R; r++) t.feed(`\x1b[${r};1H` + 'row' + r + 'x'.repeat(c.int(0, 70)));
    const row = t.row = c.pick([1, R, c.int(1, R)]); t.col = c.int(1, C); const others = t.screen();
    for (const b of bars) { const keep = JSON.stringify(b.given); const [bar, out] = capture(() => b.given === undefined && c.bool() ? new m.ProgressBar() : new m.ProgressBar(b.given)); c.eq(out, '', 'constructor-writes'); b.bar = bar; b.n = 0; b.keep = keep; }
    const steps = c.pick([3, 8, 20, c.int(1, 120)]); let hidden = false;
    for (let s = 0; s < steps; s++) {
      const b = c.pick(bars), op = b.finite && b.n > b.total + 1 ? c.pick(['write', 'end']) : c.pick(['pushWrite', 'pushWrite', 'pushWrite', 'pushWrite', 'write', 'write', s > steps - 3 ? 'end' : 'pushWrite']), v = c.pick([undefined, '', 'text', 'a 50% (3/4)', '中文', '%s %d', 'x'.repeat(c.int(1, 30))]); hist.push([bars.indexOf(b), op, v]);
      const [ret, out, writes] = capture(() => op === 'end' ? b.bar.end() : v === undefined ? b.bar[op]() : b.bar[op](v)); t.feed(out); ctx.stat('writes', writes);
      c.ok(!t.odd.length, 'unknown-sequence', () => JSON.stringify(t.odd));
      if (op === 'pushWrite') b.n++;
      const e = b.eff, done = b.finite && b.n === b.total, ended = op === 'end' || done, at = () => JSON.stringify([op, v, b.n, b.total, e]);
      if (!(b.finite && b.n > b.total)) c.ok(ret === ended, 'completion', () => `${at()} returned ${ret} after ${b.n} of ${b.total} pushes`);
      if (ended) { c.eq(t.line(row), '', 'line-left-after-end', [at(), t.line(row)]); if (e.hiddenCursor) hidden = false; ctx.stat('ends'); }
      else {
        if (e.hiddenCursor) hidden = true;
        const bits = [];
        if (!b.finite) bits.push('RUNNING:');
        else if (b.n <= b.total) { const p = k => Number(BigInt(b.n) * BigInt(k) / BigInt(b.total)); if (e.picture) bits.push(`[${'#'.repeat(p(10))}${' '.repeat(10 - p(10))}]`); if (e.percentage) bits.push(p(100) + '%'); if (e.count) bits.push(`(${b.n}/${b.total})`); }
        if (!b.finite || b.n <= b.total) c.eq(t.line(row), `${bits.join(' ')} ${v ?? ''}`.trimEnd(), 'line', [at(), out]);
        else if (e.count) c.ok(t.line(row).includes(`(${b.n}/${b.total})`), 'count-beyond', () => at() + t.line(row));
      }
      c.ok(t.visible === !hidden, 'cursor', () => `${at()}: cursor ${t.visible ? 'visible' : 'hidden'}`);
      c.ok(t.row === row, 'moved', () => `cursor moved from row ${row} to ${t.row}: ${at()}`);
      t.screen().forEach((l, i) => i !== row - 1 && c.eq(l, others[i], 'other-row', [i + 1, at()]));
    }
    for (const b of bars) { const [r, out] = capture(() => b.bar.end()); t.feed(out); c.eq(r, true, 'end-returns'); if (b.eff.hiddenCursor) hidden = false; c.eq(JSON.stringify(b.given), b.keep, 'options-changed'); }
    c.eq(t.visible, !hidden, 'cursor-at-end'); c.eq(t.line(row), '', 'line-at-end'); c.ev([bars.map(b => b.given), hist]);
  });
  // every count of every small total, and of totals whose ratios do not fit a double
  const totals = [...Array(201).keys()].slice(1).concat([333, 777, 1000]);
  await ctx.section('every', ctx.thorough ? totals.length : 103, async (c, i) => {
    const total = totals[i], b = new m.ProgressBar({ total }); c.ev(total);
    for (let n = 1; n <= total; n++) { const [r, out] = capture(() => b.pushWrite('')), t = new Term(3, 60); t.row = 2; t.feed(out.split('\x1b[?25h')[0]); const p = k => Math.floor(n * k / total); ctx.stat('counts'); if (n < total) c.eq(t.line(2), `[${'#'.repeat(p(10)).padEnd(10)}] ${p(100)}% (${n}/${total})`, 'line', [n, total]); c.eq(r, n === total, 'completion', [n, total]); }
  });
  // long bars and long texts
  await ctx.section('long', 4, async (c, i) => {
    const total = [1025, 33000, 66000, NaN][i], b = new m.ProgressBar({ total, hiddenCursor: i % 2 > 0 }), N = total || 66000; c.ev(total); const p = (n, k) => Math.floor(n * k / total);
    for (let n = 1; n <= N; n++) { const [r, out] = capture(() => b.pushWrite('')); if (n < total && (n < 300 || n % 997 < 2 || n > 65530 && n < 65540 || n === 1024 || n === 32768 || n === 32767)) { const t = new Term(3, 80); t.row = 2; t.feed(out); c.eq(t.line(2), `[${'#'.repeat(p(n, 10)).padEnd(10)}] ${p(n, 100)}% (${n}/${total})`, 'line', [n, total]); } if (r !== (n === total)) c.fail('completion', `push ${n} of ${total} returned ${r}`); }
  });
  await ctx.section('long-values', 24, async (c, i) => {
    const n = [1, 79, 80, 81, 255, 256, 257, 1000, 1024, 1025, 4097, 20000][i % 12], v = 'xy'.repeat(n).slice(0, n), inf = i >= 12, b = new m.ProgressBar(inf ? {} : { total: 9 }); c.ev([n, inf]);
    for (const op of ['write', 'pushWrite']) { const [, out] = capture(() => b[op](v)), t = new Term(2, n + 60); t.feed(out); c.ok(t.line(1) === `${inf ? 'RUNNING:' : op === 'write' ? '[          ] 0% (0/9)' : '[#         ] 11% (1/9)'} ${v}`, 'value', () => `a text of ${n} characters was changed: ${t.line(1).slice(0, 60)}`); }
  });
  process.stdout.write = real;
}
