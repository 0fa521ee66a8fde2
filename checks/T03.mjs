import { inspect } from 'node:util';
import { load } from '../lib/bundle.mjs';
import { graphGen } from '../lib/values.mjs';
import { Term } from '../lib/vt.mjs';
export const rule = 'random info objects (all fields in random order, texts rich in % specifiers) and option sets; the text with styling removed compared with an independent layout; print calls observed on stdout; non-trivial: distinct (info, options)';
export const assumptions = ['a message that is not a non-empty string and a code that is neither number nor non-empty string are left out (as coded)', 'the date is the local date-time text of the moment of the call'];
const strip = s => s.replace(/\x1b\[[\d;]*m/g, '');
export default async function (ctx) {
  const m = load('term');
  const TXT = ['hello', '100%', '%s', '%d items', '%o', '%%', '%j %i %f %c', '%O', '中文', 'a b', '  lead', '{}', '50%s off', '😀', 'x\ny', '0', 'null', '-'.repeat(80), ' '];
  const text = c => c.bool(0.85) ? c.pick(TXT) : Array.from({ length: c.int(1, 4) }, () => c.pick(TXT)).join(c.pick(['', ' ']));
  const LABEL = { name: '名称', code: '代码', message: '消息', data: '数据' };
  await ctx.section('format', ctx.n(4000), async c => {
    const info = {}, F = { type: () => c.pick(['error', 'info', 'warn', undefined]), title: () => c.pick([text(c), text(c), text(c), '', undefined]), name: () => c.pick([text(c), '', undefined]), code: () => c.pick([0, -1, 500, 1.5, '404', 'E%s', '', undefined]), message: () => c.pick([text(c), text(c), '', undefined]), data: () => c.pick([text(c), 0, null, undefined, true, { a: 1, b: { c: ['%s'] } }, { z: 1, a: { y: 2, b: ['long text'] } }, [1, [2, [3, [4, [5]]]]], Array(120).fill(7), new Map([['k', { v: 1 }]]), graphGen(c, { kinds: ['object', 'array', 'date', 'map', 'set', 'regexp', 'error'], cycles: true, share: 0.1 })]), date: () => c.pick([true, false, undefined]), stack: () => c.pick([true, false, undefined]) };
    for (const k of c.shuffle(Object.keys(F))) if (c.bool(0.6)) info[k] = F[k]();
    if (c.bool(0.7)) info.date = false;
    const o = c.bool(0.4) ? undefined : { ...(c.bool(0.7) && { display: c.pick([undefined, {}, { title: false }, { title: true }, { dividers: false }, { title: false, dividers: false }, { title: true, dividers: false }, { title: false, dividers: true }]) }), ...(c.bool(0.3) && { colors: false }), ...(c.bool(0.2) && { depth: c.int(0, 3) }), ...(c.bool(0.2) && { compact: 3 }), ...(c.bool(0.2) && { maxArrayLength: 3 }), ...(c.bool(0.15) && { sorted: false }), ...(c.bool(0.15) && { showHidden: false }), ...(c.bool(0.1) && { breakLength: 20 }), ...(c.bool(0.1) && { maxStringLength: 4 }) };
    let snap; try { snap = inspect([info, o], { depth: null, showHidden: true }); } catch { return; }
    c.ev([info, o], snap); c.last = snap.slice(0, 600);
    const t0 = new Date().toLocaleString(), here = function monitoredCaller() { return m.format(info, o); }, out = here(), t1 = new Date().toLocaleString(), plain = strip(out);
    let after; try { after = inspect([info, o], { depth: null, showHidden: true }); } catch { after = null; } c.eq(after, snap, 'arguments-changed');
    const type = info.type ?? 'error', insp = { showHidden: true, depth: null, colors: true, maxArrayLength: null, compact: false, sorted: true, ...o }, show = title => title !== undefined && title !== '';
    const fields = []; for (const k of Object.keys(info)) { const v = info[k]; if (k === 'data') fields.push([LABEL.data, typeof v === 'string' ? v : strip(inspect(v, insp))]); else if (LABEL[k] && (typeof v === 'number' && k === 'code' || typeof v === 'string' && v)) fields.push([LABEL[k], typeof v === 'string' ? v : String(v)]); }
    const some = Object.keys(info).length > 0; const dates = []; if (some && (info.date ?? true)) { dates.push(t0, t1); }
    const withStack = some && (info.stack === true || (type === 'error' && (fields.length > 0 || dates.length > 0)));
    const disp = o?.display ?? {}, title = disp.title ?? true, div = disp.dividers ?? true, dash = '\n' + '-'.repeat(80);
    const build = date => { const p = []; if (title) p.push(show(info.title) ? ` ${type.toUpperCase()}  ${info.title}` : ''); if (div) p.push(dash); const any = fields.length + (date ? 1 : 0) + (withStack ? 1 : 0); for (const [l, v] of fields) p.push(`\n ${l} `, v); if (date) p.push('\n 时间 ', date); if (withStack) p.push('\n 堆栈 ', '<STACK>'); if (div) p.push(dash); if (any) p.push('\n'); return { s: p.join(' '), any }; };
    // the caller's stack is cut out before comparing
    let got = plain, stackText = null;
    if (withStack) { const i = plain.lastIndexOf('\n 堆栈  '); c.ok(i >= 0, 'stack-missing', () => `no stack in ${JSON.stringify(plain)}`); const s = i + '\n 堆栈  '.length, endMark = (div ? ' ' + dash : '') + ' \n', e = plain.length - endMark.length; c.ok(plain.endsWith(endMark), 'layout-end', () => JSON.stringify(plain.slice(-120))); stackText = plain.slice(s, e); got = plain.slice(0, s) + '<STACK>' + plain.slice(e); ctx.stat('stacks'); }
    if (stackText !== null) { const first = stackText.split('\n').find(l => /^\s+at /.test(l)); c.ok(first && first.includes('monitoredCaller'), 'stack-caller', () => `the first frame shown is not the caller: ${JSON.stringify(stackText.slice(0, 300))}`); }
    else c.ok(!/\n\s+at .*monitoredCaller/.test(plain), 'stack-shown', () => 'a stack is shown though none was asked for');
    const norm = s => s.replace(/^\s+/, ''), want = (dates.length ? dates : [null]).map(d => norm(build(d).s));
    c.ok(want.includes(norm(got)), 'layout', () => `got ${JSON.stringify(norm(got))} expected ${JSON.stringify(want[0])}`);
    if (build(dates[0]).any) c.ok(out.startsWith('\n'), 'leading-newline', () => JSON.stringify(out.slice(0, 60)));
    if (title && show(info.title)) ctx.stat('titles'); ctx.stat('fields', fields.length);
    // styling of titles is balanced
    const t = new Term(4, 200); t.feed(strip(out) === out ? '' : out.replace(/[^\x1b]*?((?:\x1b\[[\d;]*m)|$)/g, '$1')); c.ok(!t.odd.length, 'unknown-sequence', () => JSON.stringify(t.odd)); c.eq([t.attr.fg, t.attr.bg, t.attr.bold], [null, null, false], 'style-left-on', JSON.stringify(out.slice(0, 300)));
  });
  // large data, long texts and deep stacks are shown whole
  await ctx.section('large', ctx.n(48), async (c, i) => {
    const n = [21, 33, 65, 101, 129, 500, 999, 1001, 1025, 5001, 10001, 20000][i % 12], kind = Math.floor(i / 12) % 4; let deep = 'end'; for (let k = Math.min(n, 300); k--;) deep = [deep];
    const data = [() => Array.from({ length: n }, (_, k) => k), () => ['q'.repeat(n)], () => deep, () => Object.fromEntries(Array.from({ length: n }, (_, k) => ['k' + String(k).padStart(6, '0'), k]))][kind](), text = 'w'.repeat(n) + 'E'; c.ev([n, kind]);
    const out = strip(m.format({ type: 'info', title: text, name: text, code: text, message: text, data, date: false })), body = strip(inspect(data, { showHidden: true, depth: null, colors: true, maxArrayLength: null, compact: false, sorted: true }));
    c.ok(out.includes(body), 'large-data', () => `data ${kind} of ${n} is not shown whole`); c.ok(out.split(text).length === 5, 'long-text', () => `a text of ${n} characters is shown whole ${out.split(text).length - 1} of 4 times`);
  });
  await ctx.section('deep-stack', ctx.n(12), async (c, i) => {
    const depth = [3, 6, 9, 12, 20, 40, 60, 90][i % 8], keep = Error.stackTraceLimit; c.ev(depth); let out; const go = { monitoredFrame(k) { if (k > 1) { const r = go.monitoredFrame(k - 1); return r; } return m.format(c.bool() ? { type: 'info', stack: true, title: 't', date: false } : { message: 'm', date: false }); } };
    Error.stackTraceLimit = 200; try { out = go.monitoredFrame(depth); } finally { Error.stackTraceLimit = keep; } c.ok(out.split('.monitoredFrame ').length - 1 === depth, 'stack-frames', () => `${out.split('.monitoredFrame ').length - 1} of the caller's ${depth} frames are shown`);
  });
  await ctx.section('print-many', ctx.n(60), async (c, i) => {
    const n = [2, 3, 5, 8, 9, 16, 17, 21, 33, 65, 129, 1001][i % 12], type = ['Error', 'Info', 'Warn'][i % 3], args = Array.from({ length: n }, (_, k) => k % 7 === 3 ? '' : k % 5 === 2 ? k : 'v' + k + (k % 11 === 0 ? ' %s' : '')), keep = process.stdout.write; let sink = []; c.ev([n, type]);
    process.stdout.write = s => { sink.push(String(s)); return true; }; try { m['print' + type](...args); } finally { process.stdout.write = keep; }
    c.eq(sink.map(strip), [` ${type.toUpperCase()}  ${args.join('\n  ')}\n`], 'printed-many');
  });
  // title colours: label on the colour of its type
  await ctx.section('colours', 3, async (c, i) => { const type = ['error', 'info', 'warn'][i], idx = { error: 9, info: 2, warn: 3 }[type]; c.ev(type); const t = new Term(4, 60); t.feed(m.format({ type, title: 'zz', date: false }).replace(/\n/g, '')); const a = t.log.find(x => x[0] === type[0].toUpperCase())[1], b = t.log.find(x => x[0] === 'z')[1]; c.eq([a.bg, a.fg, b.fg, b.bg], ['idx' + idx, 'idx15', 'idx' + idx, null], 'title-colour', type); });
  const real = process.stdout.write; let sink = null; process.stdout.write = function (s, ...r) { if (sink) { sink.push(String(s)); return true; } return real.call(this, s, ...r); };
  await ctx.section('print', ctx.n(1500), async c => {
    const type = c.pick(['Error', 'Info', 'Warn']), args = Array.from({ length: c.pick([1, 1, 2, 3, 6]) }, () => c.pick([text(c), text(c), 5, 0, true, false, NaN, 10n, ['a', 'b'], new Error('boom')])); if (args.length === 1 && args[0] === '') args[0] = 'x'; c.ev([type, args]);
    sink = []; let r, got; try { r = m['print' + type](...args); } finally { got = sink; sink = null; }
    c.eq(r, undefined, 'returns'); c.eq(got.length, 1, 'writes', got); const lines = args.map(a => [a].join('')).join('\n  ');
    c.eq(strip(got[0]), lines === '' ? '\n' : ` ${type.toUpperCase()}  ${lines}\n`, 'printed', [type, args]); ctx.stat('prints');
  });
  process.stdout.write = real;
}
