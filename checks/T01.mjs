import { load } from '../lib/bundle.mjs';
import { Term, PLAIN } from '../lib/vt.mjs';
export const rule = 'random texts and style sets fed to a terminal model that starts in random state; all colour names, all 8-bit codes and the published palettes exhaustively; cursor, erase and scroll sequences from random cursor positions; non-trivial: distinct (options, text)';
export const assumptions = ['the terminal model follows ECMA-48 and xterm (22 resets bold and dim, 25 both blink speeds)', 'an option set that requests nothing may reset the terminal (pinned by the tests for the missing option set)'];
const KEYS = ['bold', 'dim', 'italic', 'underlined', 'blink', 'rapidBlink', 'reverse', 'hidden', 'crossedOut'];
const STD = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white'], NAMES = STD.concat(STD.map(x => 'light' + x));
// published palettes (ANSI escape code article): terminal -> 16 colours
const PAL = {
  VGA: '0,0,0 170,0,0 0,170,0 170,85,0 0,0,170 170,0,170 0,170,170 170,170,170 85,85,85 255,85,85 85,255,85 255,255,85 85,85,255 255,85,255 85,255,255 255,255,255',
  CMD: '0,0,0 128,0,0 0,128,0 128,128,0 0,0,128 128,0,128 0,128,128 192,192,192 128,128,128 255,0,0 0,255,0 255,255,0 0,0,255 255,0,255 0,255,255 255,255,255',
  'Terminal.app': '0,0,0 194,54,33 37,188,36 173,173,39 73,46,225 211,56,211 51,187,200 203,204,205 129,131,131 252,57,31 49,231,34 234,236,35 88,51,255 249,53,248 20,240,240 233,235,235',
  PuTTY: '0,0,0 187,0,0 0,187,0 187,187,0 0,0,187 187,0,187 0,187,187 187,187,187 85,85,85 255,85,85 85,255,85 255,255,85 85,85,255 255,85,255 85,255,255 255,255,255',
  mlRC: '0,0,0 127,0,0 0,147,0 252,127,0 0,0,127 156,0,156 0,147,147 210,210,210 127,127,127 255,0,0 0,252,0 255,255,0 0,0,252 255,0,255 0,255,255 255,255,255',
  xterm: '0,0,0 205,0,0 0,205,0 205,205,0 0,0,238 205,0,205 0,205,205 229,229,229 127,127,127 255,0,0 0,255,0 255,255,0 92,92,255 255,0,255 0,255,255 255,255,255',
  Ubuntu: '1,1,1 222,56,43 57,181,74 255,199,6 0,111,184 118,38,113 44,181,233 204,204,204 128,128,128 255,0,0 0,255,0 255,255,0 0,0,255 255,0,255 0,255,255 255,255,255',
};
const setKey = (t, k) => { if (k === 'blink') t.blink |= 1; else if (k === 'rapidBlink') t.blink |= 2; else t[k] = true; };
const clearKey = (t, k) => { if (k === 'bold' || k === 'dim') t.bold = t.dim = false; else if (k === 'blink' || k === 'rapidBlink') t.blink = 0; else t[k] = false; };
export default async function (ctx) {
  const m = load('term');
  const start = c => { const t = new Term(); t.attr = { ...PLAIN }; if (c.bool(0.6)) { for (const k of KEYS) if (c.bool(0.3)) setKey(t.attr, k); if (c.bool()) t.attr.fg = 'idx' + c.int(0, 255); if (c.bool()) t.attr.bg = 'rgb1,2,3'; } return t; };
  const style = c => { const o = {}; if (c.bool(0.5)) o.foreground = c.pick(NAMES); if (c.bool(0.4)) o.background = c.pick(NAMES); for (const k of c.shuffle(KEYS)) if (c.bool(0.3)) o[k] = c.pick([true, true, false, undefined]); return o; };
  const clean = (c, t, what) => c.ok(!t.odd.length, 'unknown-sequence', () => `${what} emits a sequence the terminal does not know: ${JSON.stringify(t.odd)}`);
  const TEXT = ['a', 'Z', ' ', '0', 'm', '[', ';', '39', '%s', '%', 'é', '中', '😀', '\\', '-', 'hello', '正在加载'];
  await ctx.section('fontColor', ctx.n(6000), async c => {
    const value = Array.from({ length: c.int(1, 8) }, () => c.pick(TEXT)).join(''), o = style(c), keep = JSON.stringify(o), t = start(c), was = { ...t.attr }; c.ev([value, o, was]);
    const out = m.fontColor(value, o); c.eq(JSON.stringify(o), keep, 'options-changed');
    const want = { ...was }, after = { ...was }; let sets = 0;
    if (o.foreground) { want.fg = 'idx' + NAMES.indexOf(o.foreground); after.fg = null; sets++; }
    if (o.background) { want.bg = 'idx' + NAMES.indexOf(o.background); after.bg = null; sets++; }
    for (const k of KEYS) { if (o[k] === true) { setKey(want, k); sets++; } if (o[k] !== undefined) clearKey(after, k); }
    t.feed(out); clean(c, t, 'fontColor');
    c.eq(t.log.map(x => x[0]).join(''), value, 'text');
    const parts = /^((?:\x1b\[[\d;]*m)*)([^]*?)((?:\x1b\[[\d;]*m)*)$/.exec(out); c.eq(parts[2], value, 'text-split');
    if (sets) { for (const [ch, a] of t.log) c.eq(a, want, 'style', [ch, o, out]); c.eq(t.attr, after, 'reset', [o, out, was]); ctx.stat('styled'); }
    else if (JSON.stringify(was) === JSON.stringify(PLAIN)) { for (const [, a] of t.log) c.eq(a, PLAIN, 'plain', out); c.eq(t.attr, PLAIN, 'plain-after', out); }
    // the codes alone
    const f = m.ansiFormat(o), t2 = start(c), w2 = { ...t2.attr }; if (f.set) t2.feed(`\x1b[${f.set}m`); for (const k of KEYS) if (o[k] === true) setKey(w2, k); c.eq(t2.attr, w2, 'ansiFormat-set', [o, f]);
    if (f.reset) t2.feed(`\x1b[${f.reset}m`); for (const k of KEYS) if (o[k] !== undefined) clearKey(w2, k); c.eq(t2.attr, w2, 'ansiFormat-reset', [o, f]); clean(c, t2, 'ansiFormat');
  });
  await ctx.section('nested', ctx.n(800), async c => {
    // text that already holds escape sequences comes through unchanged
    const inner = m.fontColor('in' + c.int(0, 9), { foreground: c.pick(NAMES), bold: true }), value = c.pick(['', 'a', '中']) + inner + c.pick(['', 'b', '\x1b[0m']), o = { ...style(c), foreground: c.pick(NAMES) }; c.ev([value, o]);
    const out = m.fontColor(value, o), i = out.indexOf(value); c.ok(i > 0, 'nested-text', () => `text changed: ${JSON.stringify(out)}`);
    c.ok(/^\x1b\[[\d;]+m$/.test(out.slice(0, i)) && /^\x1b\[[\d;]+m$/.test(out.slice(i + value.length)), 'nested-codes', () => JSON.stringify(out));
    c.eq(m.fontColor('', o), '', 'empty'); c.eq(m.fontColor(value), '\x1b[0m' + value, 'no-options');
  });
  await ctx.section('codes', 256, async (c, i) => {
    c.ev(i); const r = m.colorCode8bit(i), t = new Term(); t.feed(`\x1b[${r.foreground}m`); c.eq(t.attr, { ...PLAIN, fg: 'idx' + i }, '8bit-fg', r); t.feed(`\x1b[${r.background}m`); c.eq(t.attr, { ...PLAIN, fg: 'idx' + i, bg: 'idx' + i }, '8bit-bg', r);
    const rgb = [c.pick([0, 255, c.int(0, 255)]), i, c.int(0, 255)], own = rgb.slice(), s = m.colorCode24bit(rgb), u = new Term(); c.eq(rgb, own, '24bit-changed'); u.feed(`\x1b[${s.foreground}m`); c.eq(u.attr, { ...PLAIN, fg: 'rgb' + own }, '24bit-fg', s); u.feed(`\x1b[0;${s.background}m`); c.eq(u.attr, { ...PLAIN, bg: 'rgb' + own }, '24bit-bg', s);
    clean(c, t, '8bit'); clean(c, u, '24bit');
  });
  const BAD = [-1, 256, 1e3, 1.5, 254.5, NaN, Infinity, -Infinity, '5', '', null, undefined, true, [], [5], {}, 2 ** 53, -0.5, 5n, Symbol('x')];
  await ctx.section('invalid', ctx.n(400), async (c, i) => {
    const v = i < BAD.length ? BAD[i] : c.pick([c.int(256, 1e6), -c.int(1, 1e6), c.int(0, 255) + 0.5]); c.ev(v);
    c.throws(() => m.colorCode8bit(v), 'code8bit', TypeError);
    const rgb = [1, 2, 3]; rgb[c.int(0, 2)] = v; c.throws(() => m.colorCode24bit(rgb), 'code24bit', TypeError);
    const holed = [1, 2, 3]; delete holed[i % 3]; c.throws(() => m.colorCode24bit(holed), 'code24bit-hole', TypeError);
    c.throws(() => m.colorCode24bit(c.pick([[], [1], [1, 2], [1, 2, 3, 4], '123', null, undefined, { length: 3, 0: 1, 1: 2, 2: 3 }, new Uint8Array(3)])), 'code24bit-list', TypeError);
    const name = c.pick(['', 'Red', 'RED', ' red', 'lightlightred', 'light', 'gray', 'toString', 'length', '__proto__', 'constructor', '0', 0, -1, undefined, null, 'light red', 'blackred']);
    for (const f of ['colorNameCode3bit', 'colorNameCode8bit', 'colorNameCode24bit']) c.throws(() => m[f](name), f, TypeError);
    c.throws(() => m.colorNameCode24bit(c.pick(NAMES), c.pick(['', 'vga', 'toString', '__proto__', 'constructor', 'VGA ', null])), 'palette', TypeError);
  });
  await ctx.section('names', 16, async (c, i) => {
    const name = NAMES[i]; c.ev(name); const t = new Term(), three = m.colorNameCode3bit(name), eight = m.colorNameCode8bit(name);
    t.feed(`\x1b[${three.foreground}m`); c.eq(t.attr, { ...PLAIN, fg: 'std' + i }, '3bit-fg', three); t.feed(`\x1b[0;${three.background}m`); c.eq(t.attr, { ...PLAIN, bg: 'std' + i }, '3bit-bg', three);
    t.feed(`\x1b[0;${eight.foreground}m`); c.eq(t.attr, { ...PLAIN, fg: 'idx' + i }, '8bit-name', eight); t.feed(`\x1b[0;${eight.background}m`); c.eq(t.attr, { ...PLAIN, bg: 'idx' + i }, '8bit-name-bg', eight);
    for (const p of [...Object.keys(PAL), undefined]) {
      const r = m.colorNameCode24bit(name, p), rgb = PAL[p || 'Ubuntu'].split(' ')[i]; t.feed(`\x1b[0;${r.foreground}m`); c.eq(t.attr, { ...PLAIN, fg: 'rgb' + rgb }, '24bit-name', [p, r]); t.feed(`\x1b[0;${r.background}m`); c.eq(t.attr, { ...PLAIN, bg: 'rgb' + rgb }, '24bit-name-bg', [p, r]); ctx.stat('palette entries');
    }
    clean(c, t, 'names');
  });
  // text of every length and with line breaks stays in one piece between its codes
  await ctx.section('long-texts', ctx.n(60), async (c, i) => {
    const n = [1, 2, 79, 80, 81, 255, 256, 1000, 1024, 4097, 20000, 70000][i % 12], value = c.pick(['a', 'a\n', '\r\n', ' ', '\t', '中', '\u001b', 'x y\n']).repeat(n), o = { foreground: c.pick(NAMES), [c.pick(KEYS)]: true }; c.ev([n, value.slice(0, 3), o]);
    const out = m.fontColor(value, o), at = out.indexOf('m') + 1, end = out.lastIndexOf('\x1b['); c.ok(/^\x1b\[[\d;]+m$/.test(out.slice(0, at)) && out.slice(at, at + value.length) === value && /^\x1b\[[\d;]+m$/.test(out.slice(at + value.length)), 'long-text', () => `text of ${value.length} characters changed`); c.eq(m.fontColor(value), '\x1b[0m' + value, 'no-options-long');
  });
  const MOVE = { up: (r, c, n) => [r - n, c], down: (r, c, n) => [r + n, c], forward: (r, c, n) => [r, c + n], back: (r, c, n) => [r, c - n], next: (r, c, n) => [r + n, 1], previous: (r, c, n) => [r - n, 1], absolute: (r, c, n) => [r, n] };
  const FAR = [64, 79, 80, 81, 99, 100, 101, 127, 128, 132, 133, 200, 254, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 1500, 2000, 2400];
  await ctx.section('far', FAR.length * 2, async (c, i) => {
    const n = FAR[i >> 1], tall = i % 2, R = tall ? 2500 : 2, C = tall ? 2 : 2500, clip = (v, hi) => Math.min(Math.max(v, 1), hi); c.ev([n, tall]); const t = new Term(R, C);
    for (const k of Object.keys(MOVE)) for (const [r, q] of [[1, 1], [R, C], [Math.min(R, 1200), Math.min(C, 1200)]]) { t.row = r; t.col = q; t.feed(m.cursorMove(k, n)); const [a, b] = MOVE[k](r, q, n); c.eq([t.row, t.col], [clip(a, R), clip(b, C)], k + '-far', n); }
    for (const f of ['cursorPosition', 'scrollPosition']) for (const [a, b] of [[n, 1], [1, n], [n, n], [n, 7], [3, n]]) { t.row = t.col = 1; t.feed(m[f](a, b)); c.eq([t.row, t.col], [clip(a, R), clip(b, C)], f + '-far', [a, b]); t.row = t.col = 1; t.feed(m[f](a)); c.eq([t.row, t.col], [clip(a, R), 1], f + '-far', [a]); }
    if (tall) for (const f of ['scrollUp', 'scrollDown']) { const u = new Term(R, 2), k = f === 'scrollUp' ? n + 1 : R - n; u.cells[k - 1][0].ch = 'Z'; u.feed(m[f](n)); c.eq(u.line(f === 'scrollUp' ? 1 : R), 'Z', f + '-far', n); }
    clean(c, t, 'far');
  });
  await ctx.section('sequences', ctx.n(3000), async c => {
    const R = c.int(1, 10), C = c.int(3, 40), t = new Term(R, C), n = c.pick([undefined, 1, 2, 3, c.int(1, 60)]), clip = (v, hi) => Math.min(Math.max(v, 1), hi), letter = (r, k) => String.fromCharCode(97 + (r * 7 + k) % 26);
    for (let r = 1; r <= R; r++) for (let k = 1; k <= C; k++) t.cells[r - 1][k - 1].ch = letter(r, k);
    const r0 = t.row = c.pick([1, R, c.int(1, R)]), c0 = t.col = c.pick([1, C, c.int(1, C)]), whole = () => t.cells.map(l => l.map(x => x.ch).join('')), before = whole(), what = c.pick([...Object.keys(MOVE), 'position', 'scrollPosition', 'begin', 'saved', 'saved7', 'eraseLine', 'eraseScreen', 'scrollUp', 'scrollDown', 'modes']); c.ev([what, R, C, r0, c0, n]);
    const same = () => c.eq(whole(), before, what + '-screen'), at = (r, k) => c.eq([t.row, t.col], [clip(r, R), clip(k, C)], what + '-cursor');
    if (MOVE[what]) { t.feed(n === undefined ? m.cursorMove(what) : m.cursorMove(what, n)); at(...MOVE[what](r0, c0, n ?? 1)); same(); }
    else if (/osition/.test(what)) { const f = what === 'position' ? m.cursorPosition : m.scrollPosition, k = n === undefined ? undefined : c.int(1, 60); t.feed(n === undefined ? f() : f(n, k)); at(n ?? 1, k ?? 1); same(); }
    else if (what === 'begin') { t.feed(m.cursorOnLineBegin); at(r0, 1); same(); }
    else if (/^saved/.test(what)) { const [s, r] = what === 'saved' ? [m.cursorSave, m.cursorRestore] : [m.SaveCursorAndAttr, m.restoreCursorAndAttr]; t.feed(s).feed(m.cursorPosition(c.int(1, R), c.int(1, C))).feed(r); at(r0, c0); same(); }
    else if (/^erase/.test(what)) {
      const k = c.pick([undefined, 0, 1, 2]), J = what === 'eraseScreen'; t.feed(k === undefined ? m[what]() : m[what](k)); at(r0, c0);
      const gone = (r, x) => { if (r !== r0 && !J) return false; const p = r === r0 ? Math.sign(x - c0) : Math.sign(r - r0); return k === 2 || (k === 1 ? p <= 0 : p >= 0); };
      c.eq(whole(), before.map((l, r) => [...l].map((ch, x) => gone(r + 1, x + 1) ? ' ' : ch).join('')), what);
    } else if (/^scroll/.test(what)) { const k = n ?? 1; t.feed(n === undefined ? m[what]() : m[what](n)); at(r0, c0); const pad = Array(Math.min(k, R)).fill(' '.repeat(C)); c.eq(whole(), what === 'scrollUp' ? before.slice(k).concat(pad) : pad.concat(before.slice(0, Math.max(0, R - k))), what); }
    else {
      t.feed(m.lineWrapClose); c.eq(t.wrap, false, 'wrap-off'); t.feed(m.lineWrapOpen); c.eq(t.wrap, true, 'wrap-on'); t.feed(m.cursorHidden); c.eq(t.visible, false, 'hidden'); t.feed(m.cursorShow); c.eq(t.visible, true, 'shown');
      t.font = '0'; t.feed(m.restoreFont); c.eq(t.font, 'B', 'font'); same(); at(r0, c0); t.feed(m.ResetDevice); c.eq([t.row, t.col, t.line(1)], [1, 1, ''], 'device-reset');
    }
    clean(c, t, what); ctx.stat('seq ' + what);
  });
}
