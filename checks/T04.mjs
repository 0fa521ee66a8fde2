import { PassThrough } from 'node:stream';
import { load } from '../lib/bundle.mjs';
export const rule = 'random dialogues: each answer typed after its question in random byte chunks with random line ends; non-trivial: distinct (message, answer, chunking)';
export const assumptions = ['standard input and output are replaced by streams; a question is asked once the previous one was answered', 'only the line typed to a question is delivered with it, and CR LF arrives as one piece'];
export default async function (ctx) {
  const m = load('term'), realIn = Object.getOwnPropertyDescriptor(process, 'stdin'), realOut = Object.getOwnPropertyDescriptor(process, 'stdout');
  const set = (k, v) => Object.defineProperty(process, k, { value: v, configurable: true, enumerable: true, writable: true });
  const tick = () => new Promise(r => ctx.realSetImmediate(r));
  await ctx.section('dialogue', ctx.n(1500), async c => {
    const input = new PassThrough(), output = new PassThrough(), shown = []; output.on('data', d => shown.push(String(d)));
    const n = c.int(1, 5), steps = []; let base = null;
    try {
      set('stdin', input); set('stdout', output);
      for (let q = 0; q < n; q++) {
        const msg = c.pick(['name? ', '', '  indented ', '\tmsg\n', 'm'.repeat(300) + ' ', '密码: ', '100%s ', 'a > ', '😀 ']) + c.pick(['', q + ') ']), line = c.pick(['', 'yes', '  padded  ', '\ttabs\t', 'two words', '中文回答', '😀😀', 'é', 'a\u00a0', '%s', '0', 'x'.repeat(c.int(1, 400)), 'w x'.repeat(c.pick([340, 342, 700, 1366, 3000, 6000])), '　全角　', "it's"]), eol = c.pick(['\n', '\n', '\r\n']), bytes = Buffer.from(line + eol);
        shown.length = 0; let settled = 0, value; const p = m.readByQuestion(msg); c.ok(p instanceof Promise, 'promise', () => typeof p); p.then(v => { settled++; value = v; });
        await tick(); c.eq(shown.join(''), msg, 'message');
        const cuts = []; const end = bytes.length - eol.length; for (let at = 0; at < end;) { const k = Math.min(c.pick([1, 1, 2, 3, 7, end]), end - at); cuts.push(bytes.subarray(at, at + k)); at += k; } cuts.push(Buffer.from(eol));
        steps.push([msg, line, eol, cuts.length]); c.last = steps;
        for (const part of cuts) { c.eq(settled, 0, 'early', steps); input.write(part); if (c.bool()) await tick(); }
        for (let i = 0; i < 20 && !settled; i++) await tick();
        c.eq(settled, 1, 'not-resolved', steps); c.eq(value, line.trim(), 'answer', steps); c.eq(shown.join(''), msg, 'output-after-answer'); ctx.stat('answers'); ctx.stat('chunks', cuts.length);
        const left = ['data', 'keypress', 'end', 'error', 'close'].map(e => input.listenerCount(e)); if (q === 0) base = left; else c.ok(left.every((x, i) => x <= base[i] + 1), 'listeners', () => `listeners on stdin grow: ${base} -> ${left} after ${q + 1} questions`);
      }
    } finally { Object.defineProperty(process, 'stdin', realIn); Object.defineProperty(process, 'stdout', realOut); input.destroy(); output.destroy(); }
    c.ev(steps);
  });
}
