import { load } from '../lib/bundle.mjs';
export const rule = 'cookies of RFC 6265 token names, arbitrary unicode values (default encoding) or printable verbatim values, every subset of attributes; hostile names, values and attributes full of separators; request headers of 1 to 8 pairs with every separator spacing; non-trivial: distinct input';
export const assumptions = ['names are HTTP tokens, expiry years are 1000 to 9999'];
export default async function (ctx) {
  const { createCookie, parseCookie, parseSetCookie } = load('cookie');
  const TOK = "abzAZ019!#$%&'*+-.^_`|~", VAL = "abzAZ09!#$%&'()*+-./:<=>?@[]^_`{|}~";
  const str = (c, al, a, b) => { let s = ''; for (let n = c.int(a, b); n > 0; n--) s += c.pick([...al]); return s; };
  const token = c => { for (; ;) { const s = c.bool(0.15) ? c.pick(['constructor', 'toString', 'path', 'expires', 'max-age', 'secure', 'HttpOnly', 'name', 'value', '0', 'length', 'hasOwnProperty', '__proto__']) : str(c, TOK, 1, c.pick([1, 3, 12])); return s; } };
  const uni = c => { let s = ''; for (let n = c.int(1, c.pick([1, 4, 30])); n > 0; n--) s += c.pick(['a', 'B', '7', ' ', '=', ';', ',', '"', '%', '%20', '%E4', '+', '\\', '\n', '\t', '\0', '中', 'é', '😀', 'ÿ', '\u2028', 'e\u0301', '\u212b', '\ufb01', "'", '&', '/', '<', '==']); return s; };
  const raw = c => str(c, VAL, 1, 16), DAY = 864e5;
  const attrs = c => {
    const o = {}, want = {};
    if (c.bool(0.4)) { o.maxAge = c.pick([0, 1, 10, 3600, 1.5, 59.999, -1, -0.5, 1e9, 2 ** 31, NaN, Infinity, -Infinity, undefined]); if (o.maxAge !== undefined) want.maxAge = Number.isFinite(o.maxAge) ? Math.floor(o.maxAge) : 0; }
    if (c.bool(0.4)) o.domain = want.domain = c.pick(['a.com', '.example.org', 'localhost', '127.0.0.1', 'x-y.z']);
    if (c.bool(0.4)) o.path = want.path = '/' + c.pick(['', raw(c), 'a b', 'a=b', 'a==b=', 'é', 'x,y', 'x y=z']);
    if (c.bool(0.4)) { const d = new Date(c.pick([0, 1e3, 1577836800000, Date.UTC(1000, 0, 1), Date.UTC(9999, 11, 31, 23, 59, 59), c.int(-3e8, 3e9) * 1000 + c.int(0, 999)])); o.expires = d; want.expires = new Date(Math.floor(d / 1000) * 1000); }
    for (const k of ['httpOnly', 'secure']) if (c.bool(0.4)) { o[k] = c.pick([true, true, false]); if (o[k]) want[k] = true; }
    if (c.bool(0.4)) { o.sameSite = c.pick([true, false, 'lax', 'Lax', 'STRICT', 'none', 'None', 'other']); const s = o.sameSite === true ? 'Strict' : { lax: 'Lax', strict: 'Strict', none: 'None' }[String(o.sameSite).toLowerCase()]; if (s) want.sameSite = s; }
    return { o, want };
  };
  await ctx.section('set-cookie', ctx.n(6000), async c => {
    const name = token(c), { o, want } = attrs(c), mode = c.int(0, 3); let value = mode ? uni(c) : raw(c);
    if (mode === 0) o.encode = v => v; else if (mode === 2) { o.encode = v => 'x' + encodeURIComponent(v); } else if (mode === 3) { o.encode = v => encodeURIComponent(v).replace(/%(?:2B|2F|3D|22|26|3C)/g, decodeURIComponent); }
    const decode = mode !== 0; c.ev([name, value, o]);
    let text; const args = Object.keys(o).length || c.bool() ? [name, value, o] : [name, value]; text = createCookie(...args);
    const map = c.bool(); let got = parseSetCookie([text], decode ? (map ? { map } : c.pick([undefined, {}, { decode: true }])) : { decode: false, map });
    if (map) { c.eq(Object.keys(got), [name], 'map-key'); got = [got[name]]; }
    c.eq(got.length, 1, 'count'); c.eq({ ...got[0] }, { name, value: mode === 2 ? 'x' + value : value, ...want }, 'round-trip', { text, got });
    c.ok(!/[\r\n]/.test(text), 'line', 'line break in the cookie'); if (want.expires) c.ok(text.split('; ').includes('Expires=' + want.expires.toUTCString()), 'expires-text', () => `the expiry is not written as an HTTP date in ${text}`);
  });
  await ctx.section('sizes', ctx.n(60), async (c, i) => {
    const n = [300, 1023, 1024, 4095, 4096, 4097, 8192, 20000][i % 8], name = token(c), unit = c.pick(['中', 'a', ' ', '%', ';=', '😀']), value = unit.repeat(Math.ceil(n / unit.length)), path = '/' + 'p'.repeat(c.pick([1, 300, 5000])); c.ev([n, unit, path.length]); ctx.stat('long_value', n);
    const text = createCookie(name, value, { path, maxAge: 5 }); c.eq({ ...parseSetCookie([text])[0] }, { name, value, path, maxAge: 5 }, 'long');
    const m = {}; for (let k = 0; k < [9, 60, 300][i % 3]; k++) m['k' + k] = k % 7 ? 'v'.repeat(k) : 'x'; m[name] = raw(c).repeat(100); c.eq(parseCookie(Object.entries(m).map(([k, v]) => `${k}=${v}`).join('; ')), m, 'long-header');
    const list = Array.from({ length: [9, 60, 300][i % 3] }, (_, k) => createCookie('k' + k, '值' + k)); c.eq(parseSetCookie(list).map(x => x.name + x.value), list.map((_, k) => `k${k}值${k}`), 'long-list');
  });
  // the moment of expiry is the same in every time zone
  await ctx.section('time-zones', ctx.n(240), async (c, i) => {
    const zone = ['Asia/Shanghai', 'America/New_York', 'Asia/Kathmandu', 'Pacific/Apia', 'UTC', 'Australia/Lord_Howe'][i % 6], d = new Date(c.pick([0, 1577836800000, Date.UTC(2024, 1, 29, 12), c.int(0, 3e9) * 1000])), tz = process.env.TZ; c.ev([zone, +d]); ctx.stat('zones');
    let got, text; try { process.env.TZ = zone; text = createCookie('a', 'v', { expires: d }); got = parseSetCookie([text])[0].expires; } finally { if (tz === undefined) delete process.env.TZ; else process.env.TZ = tz; }
    c.ok(text.split('; ').includes('Expires=' + d.toUTCString()), 'expires-text', () => `in ${zone}: ${text}`); c.ok(+got === +d, 'expires-zone', () => `in ${zone}: ${+got} instead of ${+d}`);
  });
  await ctx.section('several', ctx.n(1500), async c => {
    const list = [], seen = new Set(); for (let n = c.int(0, 6); n > 0; n--) { const name = token(c); if (seen.has(name)) continue; seen.add(name); const { o, want } = attrs(c), value = uni(c); list.push({ text: createCookie(name, value, o), want: { name, value, ...want } }); }
    c.ev(list.map(x => x.text)); const t = list.map(x => x.text), tb = t.slice();
    c.eq(parseSetCookie(t).map(x => ({ ...x })), list.map(x => x.want), 'list'); c.eq(Object.fromEntries(Object.entries(parseSetCookie(t, { map: true })).map(([k, v]) => [k, { ...v }])), Object.fromEntries(list.map(x => [x.want.name, x.want])), 'map'); c.eq(t, tb, 'argument');
  });
  // hostile parts: either refused, dropped (domain and path) or harmless
  await ctx.section('injection', ctx.n(4000), async c => {
    const bad = () => { let s = ''; for (let n = c.int(1, 5); n > 0; n--) s += c.pick(['a', ';', '; ', '=', 'Secure', 'Path=/x', 'HttpOnly', 'Domain=evil', ',', '\n', '\r\n', ' ', '\0', '中', '\u0100', 'Max-Age=1']); return s; };
    const o = {}, name = c.bool(0.4) ? bad() : 'n', value = bad(), ident = c.bool(); if (ident) o.encode = v => v; if (c.bool()) o.domain = bad(); if (c.bool()) o.path = bad(); if (c.bool(0.3)) o.sameSite = bad(); if (c.bool(0.3)) o.maxAge = c.pick(['5; Secure', '5', {}, null]); if (c.bool(0.3)) o.expires = c.pick(['x; Secure', 5]); if (c.bool(0.3)) o.secure = c.pick(['true', 1, 'x; HttpOnly']);
    c.ev([name, value, o]); let text; try { text = createCookie(name, value, o); } catch (e) { ctx.stat('refused'); return; } ctx.stat('accepted');
    c.ok(!/[\r\n\0]/.test(text), 'control', () => `control character in ${JSON.stringify(text)}`);
    const parts = text.split(';').map(s => s.trim()), attr = parts.slice(1).map(p => p.split('=')[0]); c.ok(new Set(attr).size === attr.length, 'twice', () => `attribute twice in ${text}`);
    for (const a of attr) { const k = { 'Max-Age': 'maxAge', Domain: 'domain', Path: 'path', SameSite: 'sameSite' }[a]; c.ok(k && k in o, 'injected', () => `attribute ${a} appeared in ${JSON.stringify(text)}`); }
    c.ok(parts[0] === `${name}=${ident ? value : encodeURIComponent(value)}`.trim(), 'pair', () => `first part is ${parts[0]}`);
    const d = parts.find(p => /^Domain=/.test(p)), p = parts.find(p => /^Path=/.test(p)); if (d) c.eq(d.slice(7).trim(), o.domain.trim(), 'domain'); if (p) c.eq(p.slice(5).trim(), o.path.trim(), 'path');
  });
  await ctx.section('cookie-header', ctx.n(6000), async c => {
    const m = {}; for (let n = c.int(1, 8); n > 0; n--) Object.defineProperty(m, token(c), { enumerable: true, writable: true, configurable: true, value: c.bool(0.1) ? '' : raw(c) + (c.bool(0.1) ? '=' : '') + (c.bool(0.1) ? c.pick([',', ',x', '\\', '\\,']) : '') + (c.bool(0.1) ? ' ' + raw(c) : '') });
    const mode = c.int(0, 2); const enc = Object.entries(m).map(([k, v]) => [k, mode === 1 ? encodeURIComponent(v) : mode === 2 ? `"${v}"` : v]); const seen = [];
    const text = (c.bool(0.1) ? ' ' : '') + enc.map(([k, v]) => k + c.pick(['=', '=', '=', ' = ']) + v).join(c.pick(['; ', ';', ' ; ', ';  ', ';\n'])) + c.pick(['', '', '', ';', '; ', ' ', '\n']); c.ev(text);
    const got = mode === 1 ? parseCookie(text, v => (seen.push(v), decodeURIComponent(v))) : parseCookie(text); c.eq(got, m, 'header', { text, got }); c.eq(Object.keys(got), Object.keys(m), 'order');
    if (mode === 1) c.eq(seen.sort(), enc.map(e => e[1]).sort(), 'decode-calls');
  });
  await ctx.section('junk-parts', ctx.n(1500), async c => {
    const m = {}, parts = [], put = (k, v) => Object.defineProperty(m, k, { value: v, writable: true, enumerable: true, configurable: true }); for (let n = c.int(1, 5); n > 0; n--) { const k = token(c), v = raw(c); put(k, v); parts.push(`${k}=${v}`); if (c.bool()) parts.push(c.pick(['', 'junk', ' ', 'Secure', '"'])); }
    // a repeated name: the last one wins
    if (c.bool(0.3)) { const k = Object.keys(m)[0]; put(k, 'again'); parts.push(k + '=again'); }
    const text = parts.join('; '); c.ev(text); c.eq(parseCookie(text), m, 'junk', { text });
  });
  // quotes that are part of the value, bad escapes, empty segments, refusals
  await ctx.section('edges', ctx.n(2000), async c => {
    const k = token(c), v = raw(c), kind = c.pick(['lone-quote', 'attribute-names', 'open-quote', 'close-quote', 'inner-quote', 'bad-escape', 'segments', 'invalid', 'decode-type', 'no-decode', 'throwing-decode']); c.ev([kind, k, v]); ctx.stat(kind);
    // unknown attributes, also those called like the parts of the result, leave the name and the value alone
    if (kind === 'attribute-names') { const a = c.pick(['name', 'Name', 'value', 'VALUE', 'x-other', 'name', 'value']), list = [`${a}=${raw(c)}`, 'Path=/p']; if (c.bool()) list.reverse(); const got = parseSetCookie([`${k}=${encodeURIComponent(v)}; ${list.join('; ')}`])[0]; c.eq([got.name, got.value, got.path], [k, v, '/p'], 'attribute-names', { a, got }); return; }
    if (kind === 'lone-quote') { const s = c.bool() ? '"' : '""'; c.eq(parseCookie(`${k}=${s}; zz=1`), k === 'zz' ? { zz: '1' } : { [k]: s === '"' ? s : '', zz: '1' }, 'lone-quote', { s }); return; }
    if (/quote/.test(kind)) { const q = kind === 'open-quote' ? '"' + v : kind === 'close-quote' ? v + '"' : `x"${v}"y`, other = c.bool(); c.eq(parseCookie(`${k}=${q}` + (other ? '; zz=1' : '')), k === 'zz' && other ? { zz: '1' } : { [k]: q, ...(other ? { zz: '1' } : {}) }, 'quote-kept'); return; }
    if (kind === 'bad-escape') { const b = c.pick(['%', '%E4', 'a%zz', '%C0%80', '%E4%B8', '%41%', '%E4%BD%A0%', '%20%zz%20', '%e4%bd%a0%E4', '%u0041']), e = console.error; let n = 0; console.error = () => n++; let got; try { got = parseSetCookie([`${k}=${b}; Path=/x`]); } finally { console.error = e; } c.eq(got.map(x => ({ ...x })), [{ name: k, value: b, path: '/x' }], 'bad-escape'); return; }
    if (kind === 'segments') { const text = c.pick(['', ';', ' ; ', '; ']) + `${k}=${encodeURIComponent(v)}` + c.pick(['', ';', ';;', '; ;', '; ']) + c.pick(['', ' ; Secure', ';;Secure;', '; Secure; ; ']); const got = parseSetCookie([text]); c.eq(got.map(x => ({ ...x })), [{ name: k, value: v, ...(/Secure/.test(text.slice(text.lastIndexOf(encodeURIComponent(v)) + encodeURIComponent(v).length)) ? { secure: true } : {}) }], 'segments', { text }); return; }
    if (kind === 'invalid') { await c.throws(() => parseCookie(c.pick(['', 'abc', 'a;b', undefined, null, 5, {}])), 'parse-invalid'); await c.throws(() => parseSetCookie([c.pick(['', 'abc', ';', 'Secure; Path=/', ' '])]), 'set-cookie-invalid'); await c.throws(() => createCookie(c.pick([undefined, null, 5, {}, 'a=b']), v), 'create-invalid'); return; }
    if (kind === 'decode-type') { const bad = c.pick([undefined, null, 5, {}, Object('x')]); if (!(bad instanceof String)) await c.throws(() => parseCookie(`${k}=${v}`, x => bad), 'decode-type'); return; }
    if (kind === 'throwing-decode') { const e = new Error('d'); await c.throws(() => parseCookie(`${k}=${v}`, x => { throw e; }), 'decode-throws', x => x === e); return; }
    const t = encodeURIComponent(uni(c)); c.eq(parseSetCookie([`${k}=${t}`], { decode: false }).map(x => ({ ...x })), [{ name: k, value: t }], 'no-decode'); c.eq({ ...parseSetCookie([`${k}=${t}`], { decode: false, map: true })[k] }, { name: k, value: t }, 'no-decode-map');
  });
}
