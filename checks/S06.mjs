import { load } from '../lib/bundle.mjs';
export const rule = 'random texts over quotes, brackets, escapes, punctuation, CJK and latin words, texts built from plain parts and well-formed bracketed groups, and texts built from sentences; non-trivial: distinct text and options';
export const assumptions = ['the default bracket and quote pairs are the documented ones', 'sentences end as in the documented test data; abbreviations are left out of constructed sentences'];
const PAIRS = { '"': '"', '`': '`', '‹': '›', '«': '»', '(': ')', '[': ']', '{': '}', '⟨': '⟩', '<': '>', '‘': '’', '“': '”', '（': '）', '［': '］', '｛': '｝', '〈': '〉', '《': '》', '「': '」', '『': '』', '【': '】', '〔': '〕', '〖': '〗', '＜': '＞', '⦅': '⦆', '⟦': '⟧', '〘': '〙', '〝': '〞', '｟': '｠', '⦗': '⦘', '⟪': '⟫', '⟬': '⟭', '⟮': '⟯', '〚': '〛' };
export default async function (ctx) {
  const { bindInside, bindOutside, toSentences, corrector, quotePair } = load('string');
  const OPEN = Object.keys(PAIRS), CLOSE = Object.values(PAIRS), MARK = [...new Set([...OPEN, ...CLOSE, "'"])];
  const AT = ['a', 'B', 'word', 'it', 's', '1', '20', '%', '.', '。', ',', '，', '!', '？', '?', ';', '；', ':', '：', '…', '...', '·', '•', '-', '+', '=', '*', '/', '#', '$', '$1', '$&', '~', '～', '@', '中', '文', '字', 'あ', 'カ', '한', 'é', 'Ａ', '１', '！', '（', '）', '\u3000', '\n', '\t', '😀', '\\', '\\\\', 'e.g.', 'etc.', '<b>', '</b>', '°C', '℉', "'s", '—', '_', '&&', '>>=', '×', '\uD800', '½', '²'];
  const noise = (c, m) => { let s = ''; for (let n = c.int(0, m); n > 0; n--) s += c.bool(0.25) ? ' ' : c.bool(0.35) ? c.bool(0.5) ? c.pick(["'", '"', '`', '(', ')', '[', ']', '<', '>']) : c.pick(MARK) : c.pick(AT); return s; };
  const q = s => JSON.stringify(s);
  const OPTS = [undefined, {}, { escape: true }, { escape: false }, { marks: { '(': ')' } }, { escape: true, marks: { '<': '>', '"': '"' } }];
  const run = (f, s, o, cb) => o === undefined ? f(s, cb) : f(s, o, cb);
  await ctx.section('bind-noise', ctx.n(12000), async c => {
    const n0 = noise(c, c.pick([4, 12, 30])), s = c.bool(0.995) ? n0 : n0 + 'x y '.repeat(c.pick([30, 300, 3000, 8000])) + (c.bool() ? '(end) ' : ''), o = c.pick(OPTS); c.ev([s, o]);
    for (const f of [bindInside, bindOutside]) {
      let from = 0, rest = ''; const pieces = [];
      const got = run(f, s, o, (v, i, all) => { pieces.push(v); c.ok(all === s, 'origin', () => `${f.name}(${q(s)}): the original text is ${q(all)}`); return v; });
      c.ok(got === s, 'identity', () => `${f.name}(${q(s)}, ${q(o)}) with an identity callback is ${q(got)}`);
      for (const p of pieces) { const i = s.indexOf(p, from); c.ok(p !== '' && i >= 0, 'pieces', () => `${f.name}(${q(s)}): piece ${q(p)} is empty or not in order`); from = i + p.length; }
      // the pieces are replaced in place and everything else stays
      const tag = run(f, s, o, v => '\u0001' + v + '\u0002'); let k = -1;
      c.ok(tag.replace(/[\u0001\u0002]/g, '') === s, 'in-place', () => `${f.name}(${q(s)}): tagging changed the text to ${q(tag)}`);
      const drop = run(f, s, o, () => `\u0003${++k}\u0004`); c.ok(drop.replace(/\u0003(\d+)\u0004/g, (_, i) => pieces[i]) === s, 'replace', () => `${f.name}(${q(s)}): the text between pieces changed`);
      ctx.stat('pieces', pieces.length);
    }
  });
  // quotePair: the quote still open at the end of the text
  await ctx.section('quotePair', ctx.n(4000), async c => {
    const Q = ['"', "'", '`'], W2 = ['abc ', ' x', '12', '(', '}', '中文', '\n', ' ; ', '😀', '«', '']; let s = '';
    const lit = n => { let t = ''; for (; n > 0; n--) t += c.pick(W2); return t; };
    const body = o => { let t = ' '; for (let n = c.int(0, 4); n > 0; n--) t += c.bool(0.4) ? lit(1) : c.bool() ? '\\' + o + ' ' : c.pick(Q.filter(x => x !== o)) + ' '; return t; };
    for (let n = c.bool(0.98) ? c.int(0, 5) : c.pick([40, 300]); n > 0; n--) { const o = c.pick(Q); s += lit(c.int(0, 2)) + ' ' + o + body(o) + o + ' '; }
    let want = ''; s += ' ' + lit(c.int(0, 2)) + ' '; if (c.bool()) { want = c.pick(Q); s += want + body(want); } c.ev(s);
    c.eq(quotePair(s), want, 'quotePair', s); ctx.stat(want ? 'quote_open' : 'quote_closed');
  });
  const word = c => c.pick(['alpha', 'beta', 'on', 'x1', '中文', '字', 'Zed', 'gamma', '42', '¡', '-', '$1']);
  const plain = (c, m = 4) => Array.from({ length: c.int(1, m) }, () => word(c)).join(c.pick([' ', ', ', '. ']));
  function inside(c, o, close, depth, escape) {
    let s = ''; const quote = o === close;
    for (let n = c.int(0, 4); n > 0; n--) {
      const k = c.int(0, 5);
      if (k < 2) s += plain(c, 2) + ' ';
      else if (k === 2 && !quote && depth < 3) s += o + inside(c, o, close, depth + 1, escape) + close;
      else if (k === 3) { const x = c.pick(MARK.filter(y => y !== o && y !== close && y !== "'")); s += x; }
      else if (k === 4 && escape) s += '\\' + (c.bool() ? close : o);
      else s += word(c);
    }
    return s;
  }
  function grouped(c, escape) {
    const parts = []; let first = c.bool();
    for (let n = c.int(1, 5); n > 0; n--) {
      if (first) parts.push(['p', plain(c) + (escape && c.bool(0.3) ? ' \\' + c.pick(MARK.filter(x => x !== "'")) + ' ' : '')]);
      first = true; const o = c.pick(c.bool() ? ['(', '[', '"', '`', '<', '{'] : OPEN), b = inside(c, o, PAIRS[o], 0, escape); parts.push(['g', o + b + PAIRS[o]]);
    }
    if (c.bool()) parts.push(['p', plain(c)]);
    return parts;
  }
  await ctx.section('bind-groups', ctx.n(12000), async c => {
    const escape = c.bool(0.4), parts = grouped(c, escape), s = parts.map(x => x[1]).join(''), o = escape ? { escape } : c.pick([undefined, {}]); c.ev([s, o]);
    for (const [f, k] of [[bindInside, 'g'], [bindOutside, 'p']]) { const got = []; run(f, s, o, v => (got.push(v), v)); const want = parts.filter(x => x[0] === k).map(x => x[1]); c.ok(q(got) === q(want), k === 'g' ? 'inside' : 'outside', () => `${f.name}(${q(s)}, ${q(o)}) gives ${q(got)}, expected ${q(want)}`); ctx.stat('groups', want.length); }
  });
  const solid = s => s.replace(/\s+/g, '');
  await ctx.section('sentences-noise', ctx.n(8000), async c => {
    const s = noise(c, c.pick([5, 15, 40])), o = c.pick([undefined, { ellipsis: false }, { escape: true }, { ellipsis: true, escape: false }]); c.ev([s, o]);
    const r = toSentences(s, o); c.ok(Array.isArray(r) && r.every(x => typeof x === 'string' && !x.includes('\n')), 'shape', () => `toSentences(${q(s)}) is ${q(r)}`);
    c.ok(solid(r.join('')) === solid(s), 'kept', () => `toSentences(${q(s)}) is ${q(r)}`);
  });
  const W = ['alpha', 'beta', 'gamma', 'delta', 'omega', 'river', 'stone', 'house', 'green'], Z = ['我爱你', '中国', '文字', '今天很好', '他来了'];
  const ABBR = ['e.g.', 'i.e.', 'i.a.', 'etc.', 'ca.', 'cf.', 'ff.', 'c.v.', 'p.s.', 'a.d.', 'p.m.', 'p.a.', 'll.b.', 'id.', 'vs.', 'v.s.', 'viz.', 'Ph.D.', 'a.m.'];
  await ctx.section('sentences', ctx.n(8000), async c => {
    const zh = c.bool(), mid = c.bool(0.2), n = c.int(1, 6), out = [];
    for (let i = 0; i < n; i++) {
      let x = zh ? c.pick(Z) + c.pick(['', '，' + c.pick(Z)]) : `${c.pick(W)} ${c.pick(W)}`;
      if (!zh && c.bool(0.3)) x = `${c.pick(W)} ${c.bool(0.8) ? c.pick(ABBR) : c.pick(ABBR).toUpperCase()} ${x}`;
      if (mid && c.bool(0.4)) x += zh ? `${c.pick(['。。', '。。。。'])}${c.pick(Z)}` : ` ${c.pick(W)}${c.pick(['..', '...', '.....'])} ${c.pick(W)} ${c.pick(W)}`;
      if (c.bool(0.3)) x += (zh ? '' : ' ') + (zh ? `「${c.pick(Z)}。${c.pick(Z)}。」` : c.pick(['(x. y. z)', '"no way. yes"', '`a. b`', '[so! it is]'])) + (zh ? c.pick(Z) : ` ${c.pick(W)} ${c.pick(W)}`);
      out.push(x + (zh ? c.pick(['。', '！', '？', '；', '！！']) : c.pick(['.', '!', '?', ';', '?!'])));
    }
    const last = c.bool(0.3) ? (out[n - 1] = out[n - 1].replace(/[.!?;。！？；]+$/, '')) : 0;
    const s = out.join(zh ? c.pick(['', ' ']) : ' '); c.ev(s);
    const got = toSentences(s, mid ? { ellipsis: false } : c.pick([undefined, {}, { ellipsis: true }])).map(x => x.trim()); c.ok(q(got.map(solid)) === q(out.map(solid)), 'split', () => `toSentences(${q(s)}) is ${q(got)}`);
    c.ok(zh || q(got) === q(out), 'split-text', () => `toSentences(${q(s)}) is ${q(got)}`); ctx.stat('sentences', n);
  });
  const KEEP = new Set(['，', '？', '！', '：', '；', '（', '）']);
  const half = s => [...s].map(x => KEEP.has(x) ? x : x === '\u3000' ? ' ' : x >= '\uff01' && x <= '\uff5e' && x.length === 1 ? String.fromCharCode(x.charCodeAt(0) - 65248) : x).join('');
  const body = s => (s.match(/[\p{L}\p{N}\p{Ideographic}]/gu) ?? []).join('');
  await ctx.section('corrector', ctx.n(10000), async c => {
    let s = noise(c, c.pick([4, 12, 30])); if (c.bool(0.3)) s += c.pick(['今天li Ming搬了100元，花了2.5元.', 'a ·b• c', '价格：100 元(约 20%)。', 'cafe\u0301 中e\u0301', '\uf900中\ufa0e', '\u1112\u1161\u11ab', '<b>中\n文</b>', '中' + '\u212b' + '\u2126 \u00c5']); if (c.bool(0.004)) s += c.pick(['中', '中文，', 'word ', '中a', '1', '。中']).repeat(c.pick([300, 1500, 5000])) + 'z终'; const o = c.pick([undefined, {}, { enhanceRule: false }, { toHalfWith: false }, { enhanceRule: false, toHalfWith: false }]); c.ev([s, o]);
    const r = corrector(s, o), ref = o?.toHalfWith === false ? s : half(s);
    c.ok(body(r) === body(ref), 'letters', () => `corrector(${q(s)}, ${q(o)}) is ${q(r)}`);
    c.ok([...r].every(x => !(x in {}) ), 'shape');
    if (!s.trim()) c.eq(r, '', 'blank');
  });
  await ctx.section('half-width', 0x10000 / 256, async (c, i) => {
    for (let x = i * 256; x < i * 256 + 256; x++) { const s = String.fromCharCode(x); if (/\s|[\u00b7\u2022\u2027]/.test(s)) continue; const r = corrector(`a${s}a`, { enhanceRule: true }).replace(/ /g, ''); if (/[.,;:!?~]/.test(half(s))) continue; c.ok(r === `a${half(s)}a`, 'half-width', () => `U+${x.toString(16)} becomes ${q(r)}`); } c.ev(i);
  });
  // the time does not explode
  await ctx.section('long', ctx.n(20, 4), async c => {
    const s = Array.from({ length: 60 }, () => noise(c, 10)).join(''); c.ev(s.length); const t = process.hrtime.bigint(); toSentences(s); bindInside(s, v => v); bindOutside(s, v => v); corrector(s.slice(0, 300)); ctx.stat('long_texts'); ctx.statMax('long_ms', Number((process.hrtime.bigint() - t) / 1000000n));
  });
}
