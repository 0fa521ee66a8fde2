import net from 'node:net';
import { load } from '../lib/bundle.mjs';
export const rule = 'addresses, mail addresses, links and phone numbers generated from their grammars at and around every limit, and one-step corruptions of them, each asked twice, against hand-written recognisers and the platform IP parser; non-trivial: distinct text';
export const assumptions = ['zone identifiers and IPv4 octets with a leading zero are not judged'];
export default async function (ctx) {
  const { isIp, isEmail, isURI, isChinaPhoneNumber } = load('regexp');
  const rep = (c, al, n) => { let s = ''; for (let i = 0; i < n; i++) s += c.pick([...al]); return s; };
  const EDIT = ['', '.', ':', '@', '[', ']', '0', '9', 'a', 'g', 'F', ' ', '\n', '-', '_', '::', '中', '/', '%', '"', '256', '1'];
  const corrupt = (c, s) => { const i = c.int(0, s.length); switch (c.int(0, 4)) { case 0: return s.slice(0, i) + c.pick(EDIT) + s.slice(i); case 1: return s.slice(0, i) + s.slice(i + 1); case 2: return s.slice(0, i) + c.pick(EDIT) + s.slice(i + 1); case 3: return s + c.pick(EDIT); default: return c.pick(EDIT) + s; } };
  const judge = (c, fn, name, s, want, ...a) => { ctx.stat(want ? name + '_accept' : name + '_reject'); for (let k = 0; k < 2; k++) { let got; try { got = fn(s, ...a); } catch (e) { got = e; } c.ok(got === want, name, () => `${name}(${JSON.stringify(s)}${a.length ? ', ' + a : ''}) is ${got}, expected ${want}`); } };
  const oct = c => String(c.pick([0, 1, 9, 10, 99, 100, 199, 200, 249, 250, 255, c.int(0, 255), 256, 260, 300, 999].slice(0, c.bool(0.9) ? 12 : 16)));
  const v4 = c => [oct(c), oct(c), oct(c), oct(c)].join('.');
  const h = c => rep(c, '0123456789abcdefABCDEF', c.int(1, 4));
  function v6(c) { const tail = c.bool(0.25), full = tail ? 6 : 8; const k = c.bool(0.7) ? c.int(0, full - 1) : full; const g = Array.from({ length: Math.max(0, k) }, () => h(c)); if (c.bool(0.1)) g.push(h(c)); if (k >= full) return g.join(':') + (tail ? ':' + v4(c) : ''); const at = c.int(0, g.length), l = g.slice(0, at), r = g.slice(at); if (tail) r.push(v4(c)); return l.join(':') + '::' + r.join(':'); }
  const port = c => c.bool(0.3) ? '' : ':' + c.pick(['0', '1', '9', '10', '80', '999', '1000', '9999', '10000', '59999', '60000', '64999', '65000', '65499', '65500', '65529', '65530', '65535', '65536', '65540', '65600', '66000', '70000', '99999', '00', '080', '100000', '655350', '', '-1', 'a', String(c.int(0, 70000))]);
  const isPort = p => /^\d+$/.test(p) && String(Number(p)) === p && Number(p) <= 65535;
  function ipRef(s) { if (/%/.test(s)) return s.includes(' ') ? false : null; if (/(^|[.:\[])0\d{1,2}(?=\.)|\.0\d{1,2}($|[\]:])/.test(s) && s.includes('.')) return null; if (net.isIPv4(s) || net.isIPv6(s)) return true; const m = /^\[([^\]]*)\](?::([^]*))?$/.exec(s); return !!m && net.isIPv6(m[1]) && (m[2] === undefined || isPort(m[2])); }
  await ctx.section('ip', ctx.n(12000), async c => {
    let s = c.bool(0.25) ? v4(c) : c.bool(0.6) ? v6(c) : `[${c.bool(0.95) ? v6(c) : v4(c)}]${port(c)}`; if (c.bool(0.5)) s = corrupt(c, s); if (c.bool(0.1)) s = corrupt(c, s); c.ev(s);
    const want = ipRef(s); if (want !== null) judge(c, isIp, 'isIp', s, want);
  });
  const LOCAL = "-+*={}`~%&|^!?#'$/_azAZ09", DOM = '-_azAZ09';
  function emailRef(s) {
    const i = s.lastIndexOf('@'); if (i < 1) return false; const l = s.slice(0, i), d = s.slice(i + 1); if (l.length > 64 || d.length > 255) return false;
    const q = l.length >= 3 && l[0] === '"' && l.endsWith('"') && !/[\n\r\u2028\u2029]/.test(l.slice(1, -1));
    if (!q && !l.split('.').every(p => p && [...p].every(x => /^[0-9A-Za-z]$/.test(x) || "-+*={}`~%&|^!?#'$/_".includes(x)))) return false;
    if (d[0] === '[') { const m = d.endsWith(']') ? d.slice(1, -1).split('.') : []; return m.length === 4 && m.every(x => x.length >= 1 && x.length <= 3 && [...x].every(y => y >= '0' && y <= '9')); }
    const ls = d.split('.'), last = ls.pop(), w = x => /^[-0-9A-Za-z_]*$/.test(x), al = x => /^[A-Za-z]$/.test(x || '');
    return ls.every(x => x.length >= 1 && x.length <= 64 && /^[0-9A-Za-z]/.test(x) && w(x)) && last.length >= 2 && last.length <= 64 && w(last) && al(last[0]) && al(last[last.length - 1]);
  }
  await ctx.section('email', ctx.n(10000), async c => {
    const atom = () => rep(c, LOCAL, c.pick([1, 2, 5, 20])); let l; const k = c.int(0, 4);
    if (k === 0) l = '"' + rep(c, 'a@ ".中\\', c.pick([1, 2, 20, 61, 62, 63])) + '"'; else if (k === 1) l = rep(c, 'ab', c.pick([63, 64, 65])); else l = Array.from({ length: c.int(1, 3) }, atom).join('.');
    const lab = n => c.pick([...'azAZ09']) + rep(c, DOM, n - 1); let d;
    const top = n => c.pick([...'azAZ']) + rep(c, DOM, n - 2) + c.pick([...'azAZ']);
    if (c.bool(0.15)) d = `[${[0, 0, 0, 0].map(() => rep(c, '0129', c.int(1, 3))).join('.')}]`; else d = [...Array.from({ length: c.pick([0, 1, 1, 2, 3, 4]) }, () => lab(c.pick([1, 2, 5, 30, 63, 64, 64, 65].slice(0, c.bool(0.9) ? 7 : 8)))), top(c.pick([2, 3, 5, 63, 64, 65].slice(0, c.bool(0.9) ? 5 : 6)))].join('.');
    let s = `${l}@${d}`; if (c.bool(0.4)) s = corrupt(c, s); c.ev(s); judge(c, isEmail, 'isEmail', s, emailRef(s));
  });
  const HEAD = "- ?!#$@&|^+/*~%=.,:;(){}<>\\`'\"[]_azAZ09", TAIL = '+&@#/%=~|_azAZ09';
  function uriRef(s) { const m = ['http://', 'https://', 'ftp://', 'file://'].find(p => s.startsWith(p)); if (!m) return false; const r = s.slice(m.length); if (r.length < 2) return false; const ok = (x, al) => /^[0-9A-Za-z]$/.test(x) || al.includes(x); if (!ok(r[r.length - 1], TAIL) || ![...r.slice(0, -1)].every(x => ok(x, HEAD))) return false; try { return encodeURI(decodeURI(s)).length <= 2000; } catch { return false; } }
  // links far longer than their normalised form
  await ctx.section('uri-long', ctx.n(12), async (c, i) => { const n = [1400, 1700, 1981, 1982, 1990, 2400, 3000, 20000, 1365, 1366, 1000, 1989][i % 12], s = 'http://e.com/' + '%41'.repeat(n) + 'z'; c.ev(n); judge(c, isURI, 'isURI', s, uriRef(s)); const t = 'ftp://' + 'é'.repeat(3) + 'a'.repeat(n); judge(c, isURI, 'isURI', t, uriRef(t)); });
  await ctx.section('long-texts', ctx.n(12), async (c, i) => { const n = [100, 1000, 4096, 5000, 20000, 70000][i % 6], p = ['a', '1.', 'a.', ':1', '1', '%20'][(i + c.int(0, 5)) % 6].repeat(n); c.ev([n, i]); for (const s of [p, 'http://' + p, p + '@a.com', 'a@' + p + 'com', '[' + p + ']', '+86' + p]) { judge(c, isEmail, 'isEmail', s, emailRef(s)); judge(c, isURI, 'isURI', s, uriRef(s)); const w = ipRef(s); if (w !== null) judge(c, isIp, 'isIp', s, w); judge(c, isChinaPhoneNumber, 'phone', s, /^(?:\+86|0086)?1[3-9]\d{9}$/.test(s)); } });
  await ctx.section('uri', ctx.n(8000), async c => {
    const pct = () => c.pick(['%20', '%41', '%E4%B8%AD', '%2F', '%25', '%ff', '%zz', '%', '%E4'].slice(0, c.bool(0.85) ? 5 : 9)); let b = ''; for (let n = c.int(0, 8); n > 0; n--) b += c.bool(0.3) ? pct() : rep(c, c.bool(0.6) ? 'abz019./?=&-_' : HEAD.replace('%', ''), c.int(1, 4));
    if (c.bool(0.1)) { b += '/' + 'a'.repeat(2000 - 10 - encodeURI(b).length + c.int(-3, 3)); } if (c.bool(0.03)) b += '%41'.repeat(c.pick([600, 660, 700, 1500, 1900, 1970, 1999, 2000])); if (c.bool(0.03)) b += ' '.repeat(c.pick([600, 660, 700]));
    let s = c.pick(['http', 'https', 'ftp', 'file']) + '://' + b + c.pick([...TAIL]); if (c.bool(0.4)) s = corrupt(c, s); if (c.bool(0.03)) s = c.pick(['HTTP://a.com', 'htt://a.com', 'httpss://a.com', 'xhttp://a.com', 'http:/a.com', 'http://', 'http://a', 'http://中.com', 'javascript:alert(1)']); c.ev(s); judge(c, isURI, 'isURI', s, uriRef(s));
  });
  // level 2: prefixes that are assigned to subscribers, and those that are not
  const HIGH = new Set(); for (const [p, ds] of Object.entries({ 3: '0123456789', 4: '5679', 5: '012356789', 6: '567', 7: '012345678', 8: '0123456789', 9: '01256789' })) for (const d of ds) HIGH.add('1' + p + d);
  await ctx.section('phone', ctx.n(8000), async c => {
    let s = c.pick(['', '', '', '+86', '0086']) + '1' + c.int(0, 9) + c.int(0, 9) + rep(c, '0123456789', 8); if (c.bool(0.35)) s = c.bool(0.2) ? c.pick(['+0086', '86', '0', '+', '00', '+86 ']) + s : corrupt(c, s); c.ev(s);
    const m = /^(?:\+86|0086)?(1\d{10})$/.exec(s), n = m && m[1], w = [!!n, !!n && n[1] >= '3', !!n && HIGH.has(n.slice(0, 3))];
    for (const l of [0, 1, 2]) judge(c, isChinaPhoneNumber, 'phone' + l, s, w[l], l); judge(c, isChinaPhoneNumber, 'phone', s, w[1]);
    if (/^[1-9]\d*$/.test(s) && Number.isSafeInteger(Number(s))) judge(c, isChinaPhoneNumber, 'phone-number', Number(s), w[1]);
  });
}
