import zlib from 'node:zlib';
import http from 'node:http';
import qs from 'node:querystring';
import { isDeepStrictEqual, inspect } from 'node:util';
import { load } from '../lib/bundle.mjs';
import { server, rawServer, dribble, sent } from '../lib/web.mjs';
export const rule = 'random requests (methods, paths, queries, headers, bodies, URL and option forms, several at once) to loopback HTTP and HTTPS servers that log what arrives and answer with random statuses, encodings and chunkings; non-trivial: distinct (request, answer)';
export const assumptions = ['loopback TCP; certificates are self-signed', 'CONNECT is not generated', 'query values hold no lone surrogates'];
export default async function (ctx) {
  const { request } = load('request'), S = { http: await server(), https: await server({ secure: true }) }, plans = new Map(); let seq = 0;
  for (const k in S) S[k].reply = async (req, e, res) => {
    const id = Number(sent(e, 'x-plan')[0]), p = plans.get(id); p.seen.push(e);
    if (p.wait) await new Promise(r => setTimeout(r, p.wait));
    const h = { ...p.headers }; if (p.enc) h['content-encoding'] = p.enc; if (p.length) h['content-length'] = p.wire.length;
    res.writeHead(p.status, p.text, h); if (req.method !== 'HEAD' && p.status !== 204 && p.status !== 304) await dribble(p.c, res, p.wire); res.end();
  };
  const WORD = ['a', 'b c', 'x&y', 'k=v', '中文', '😀', 'a+b', '100%', '%41', '', '?', '#', '/', "'", '"', '[0]', 'a,b', 'a:b', 'a@b', '$', 'é', '\n', '~', '!', '*', '(', ')', '\\', '|', 'null', '0', ';'];
  const KEYS = ['q', 'key', 'a b', '中', 'x[]', 'a.b', '&', '=', '+', 'id', '0', '1', 'Q'];
  const word = c => c.pick(WORD).repeat(c.pick([1, 1, 1, 2])), bytes = (c, n) => { const b = Buffer.alloc(n), t = c.bool(); for (let i = 0; i < n; i++) b[i] = t ? 97 + (i * 7) % 26 : c.int(0, 255); return b; };
  function query(c) {
    const q = {}, pairs = [];
    for (const k of c.subset(KEYS)) {
      const kind = c.int(0, 8), d = new Date(c.int(0, 2e9) * 1000);
      q[k] = kind < 4 ? word(c) : kind === 4 ? c.pick([0, -1.5, 1e21, true, false]) : kind === 5 ? Array.from({ length: c.int(0, 3) }, () => c.pick([word(c), 7, true])) : kind === 6 ? c.pick([null, undefined]) : kind === 7 ? d : { n: word(c) };
    }
    for (const k of Object.keys(q)) { const v = q[k]; if (v == null) continue; for (const x of Array.isArray(v) ? v : [v]) pairs.push([k, x instanceof Date ? x.toISOString() : typeof x === 'object' ? JSON.stringify(x) : String(x)]); }
    return { q, pairs };
  }
  const HN = ['X-Token', 'Host', 'hOST', 'x-lower', 'Accept', 'ACCEPT', 'User-Agent', 'user-agent', 'Cache-Control', 'Cookie', 'Authorization', 'Referer', 'Origin', 'X-Requested-With', 'Accept-Encoding', 'DNT', 'Accept-Language'];
  function headers(c) { const h = {}, seen = new Set(); for (const n of c.subset(HN)) { if (seen.has(n.toLowerCase())) continue; seen.add(n.toLowerCase()); h[n] = /^host$/i.test(n) ? c.pick(['virtual.test', 'virtual.test:81', 'localhost']) : c.pick(['v', 'a b', 'a=1; b=2', 'Basic eDp5', 'x'.repeat(300), '1', 5, '*/*']); } return h; }
  function reqBody(c, h) {
    const ct = () => c.pick(['Content-Type', 'content-type', 'CONTENT-TYPE']);
    switch (c.int(0, 8)) {
      case 0: case 1: return {};
      case 2: { const t = word(c) + c.pick(['', 'x'.repeat(c.pick([1, 1000, 70000])), '中文']); if (c.bool()) h[ct()] = 'text/plain'; return { body: t, want: b => b.equals(Buffer.from(t)) }; }
      case 3: { const b0 = bytes(c, c.pick([0, 1, 100, 70000])); h[ct()] = 'application/octet-stream'; return { body: b0, want: b => b.equals(b0) }; }
      case 4: { const b0 = bytes(c, 64), o = c.int(0, 20), v = new Uint8Array(b0.buffer, b0.byteOffset + o, 30); return { body: v, want: b => b.equals(b0.subarray(o, o + 30)) }; }
      case 5: { const b0 = bytes(c, c.pick([1, 40, 70000, 300000])), a = new Uint8Array(b0).buffer; return { body: a, want: b => b.equals(b0) }; }
      case 6: { const o = { [word(c) || 'k']: word(c), list: [word(c), 2, null, { d: word(c) }], n: null, t: true }; h[ct()] = c.pick(['application/json', 'application/json; charset=utf-8']); const body = c.bool() ? o : [o, 1]; return { body, want: b => isDeepStrictEqual(JSON.parse(b), body) }; }
      default: { const o = {}; for (const k of c.subset(KEYS)) o[k] = c.pick([word(c), 5, [word(c), word(c)], true]); if (c.bool()) h[ct()] = 'application/x-www-form-urlencoded'; const w = {}; for (const k in o) w[k] = Array.isArray(o[k]) ? o[k].map(String) : String(o[k]); return { body: o, want: b => isDeepStrictEqual({ ...qs.parse(b.toString()) }, w) }; }
    }
  }
  function plan(c) {
    const raw = bytes(c, c.pick([0, 1, 5, 300, 5000, 70000])), kind = c.pick(['none', 'none', 'gzip', 'x-gzip', 'GZIP', 'deflate', 'raw', 'br', 'identity', 'members', 'compress']); let wire = raw, enc;
    if (kind === 'identity') enc = 'identity'; else if (kind === 'deflate') { enc = c.pick(['deflate', 'Deflate']); wire = zlib.deflateSync(raw, { level: c.int(0, 9), windowBits: c.int(9, 15) }); } else if (kind === 'raw') { enc = 'deflate'; wire = zlib.deflateRawSync(raw, { level: c.int(1, 9) }); } else if (kind === 'br') { enc = 'br'; wire = zlib.brotliCompressSync(raw); } else if (kind === 'members') { enc = 'gzip'; const k = c.int(0, raw.length); wire = Buffer.concat([zlib.gzipSync(raw.subarray(0, k)), zlib.gzipSync(raw.subarray(k))]); } else if (kind !== 'none') { enc = kind; wire = zlib.gzipSync(raw, { level: c.int(0, 9) }); }
    if (kind === 'raw' && (wire[0] & 15) === 8) { enc = undefined; wire = raw; }
    return { c, raw, wire, enc, kind, length: c.bool(0.4), wait: c.pick([0, 0, 0, 1, 4]), status: c.pick([200, 200, 200, 201, 204, 206, 300, 302, 304, 400, 401, 404, 418, 500, 503, 599]), text: c.pick(['OK', 'Some Reason', 'x']), headers: { 'x-answer': 'r' + c.int(0, 999), ...(c.bool(0.2) && { 'content-type': 'text/html' }) }, seen: [] };
  }
  const PATHS = ['/', '/a', '/a/b%20c/', '/%E4%B8%AD', '/a;b', '//x', '/a/../b', '/..', '/x.html', '/a+b', "/'", '/-_.~'];
  async function one(c) {
    const id = ++seq, p = plan(c), secure = c.bool(0.15), s = S[secure ? 'https' : 'http'], hd = headers(c), method = c.pick(['GET', 'get', 'POST', 'post', 'PUT', 'Put', 'DELETE', 'PATCH', 'HEAD', 'head', 'OPTIONS', 'LINK', undefined]), b = reqBody(c, hd), host = c.pick(['127.0.0.1', '127.0.0.2', '127.1.2.3']);
    plans.set(id, p); hd['X-Plan'] = id;
    let { q, pairs } = c.bool(0.6) ? query(c) : {}, path = c.pick(PATHS), pre = [], wantPath;
    const form = c.pick(['url', 'url', 'URL', 'options']), opts = { headers: hd }; if (method || c.bool()) opts.method = method; if (b.body !== undefined) opts.body = b.body; if (b.body && c.bool(0.15)) hd[c.pick(['Content-Length', 'content-length'])] = c.pick([3, '100000']); if (q || c.bool(0.1)) opts.query = q; if (c.bool(0.1)) opts.delay = 1; if (c.bool(0.2)) opts.maxRedirects = c.pick([0, 5]);
    const filled = () => c.pick([word(c), 'p%40ss', 'x']) || 'u', cred = !Object.keys(hd).some(k => /^authorization$/i.test(k)) && c.bool(0.4) ? [filled().replace(/:/g, ';'), filled()] : null, inUrl = cred && form !== 'options' && c.bool(0.6); if (cred && !inUrl) opts.auth = cred.join(':'); const bare = inUrl ? c.int(0, 7) : 9; if (bare < 2) cred[1] = ''; else if (bare === 2) cred[0] = '';
    let args;
    if (form === 'options') { if (c.bool(0.3)) { pre = [['z', '1'], ['q', 'first']]; path += '?z=1&q=first'; } else if (c.bool(0.1)) path += '?'; Object.assign(opts, { hostname: host, port: s.port, path, https: secure }); if (secure && c.bool()) delete opts.https; args = [opts]; wantPath = path.replace(/\?.*/, ''); }
    else { let u = `http${secure ? 's' : ''}://${inUrl ? (bare === 0 ? encodeURIComponent(cred[0]) : cred.map(encodeURIComponent).join(':')) + '@' : ''}${host}:${s.port}${path}`; if (c.bool(0.4)) { pre = [['z', '1 2'], ['q', '&']]; u += '?z=1+2&q=%26'; } if (c.bool(0.1)) u += '#frag'; wantPath = new URL(u).pathname; args = [form === 'URL' ? new URL(u) : u, opts]; }
    const before = shot(opts); c.ev([form, secure, path, q && Object.keys(q), method, hd, b.body && String(b.body).slice(0, 30), p.kind, p.status, p.raw.length]);
    const what = () => `${form} request ${method} ${path} answered with ${p.status} ${p.kind} of ${p.raw.length} bytes`;
    const r = await request(...args); plans.delete(id);
    // what the server saw
    c.ok(p.seen.length === 1, 'requests', () => `${p.seen.length} requests arrive for one call (${what()})`); const e = p.seen[0];
    c.eq(e.method, (method ?? 'GET').toUpperCase(), 'method'); c.eq(e.local, host, 'host'); const [gp] = e.url.split('?'), search = e.url.slice(gp.length).replace(/^\?/, '&');
    c.eq(gp, wantPath, 'path', what()); c.eq([...new URLSearchParams(search)], pre.concat(pairs ?? []), 'query', [e.url, q]);
    for (const n in hd) if (!/^content-length$/i.test(n)) c.eq(sent(e, n), [String(hd[n])], 'header', n); const names = e.raw.filter((_, i) => i % 2 === 0).map(x => x.toLowerCase()); c.eq(names.length, new Set(names).size, 'header-twice', names);
    if (cred) { c.eq(sent(e, 'authorization').map(x => Buffer.from(x.replace(/^Basic /, ''), 'base64').toString()), [cred.join(':')], 'credentials', inUrl ? 'given in the URL' : 'given as auth'); ctx.stat(bare < 3 ? 'half_credentials' : 'credentials'); }
    const named = Object.keys(hd), has = n => named.some(k => k.toLowerCase() === n), hostWant = `${host}:${s.port}`; if (!has('host')) c.eq(sent(e, 'host'), [hostWant], 'host-header'); if (!has('origin') && !has('host')) c.eq(sent(e, 'origin'), [`http${secure ? 's' : ''}://${hostWant}`], 'origin-header');
    if (b.body) { c.ok(b.want(e.body), 'body', () => `the body arrives as ${e.body.length} bytes ${JSON.stringify(e.body.toString('latin1').slice(0, 120))} (${what()})`); c.eq(sent(e, 'content-length'), [String(e.body.length)], 'content-length'); } else c.eq(e.body.length, 0, 'body-unasked');
    // what the caller got
    const none = e.method === 'HEAD' || p.status === 204 || p.status === 304, want = none ? Buffer.alloc(0) : p.raw;
    c.eq(r.status, p.status, 'status'); c.eq(r.statusText, p.text, 'status-text'); c.eq(r.error, null, 'error'); c.ok(Buffer.isBuffer(r.data) && r.data.equals(want), 'data', () => `data is ${r.data?.length} bytes ${r.data?.toString('hex').slice(0, 60)}, not the ${want.length} sent (${what()})`); c.eq(r.response.headers['x-answer'], p.headers['x-answer'], 'answer-headers'); c.ok(none || !['gzip', 'deflate', 'br', 'x-gzip'].includes(r.response.headers['content-encoding']?.toLowerCase()), 'still-encoded', () => `the decoded answer still carries content-encoding ${r.response.headers['content-encoding']}`);
    c.ok(shot(opts) === before, 'options-changed', () => `the options passed by the caller changed (${what()})`); ctx.stat('requests'); ctx.stat('bytes', p.wire.length + e.body.length); ctx.stat('encoded', p.enc ? 1 : 0);
  }
  await ctx.section('one', ctx.n(900, 12), one);
  await ctx.section('many', ctx.n(60, 10), async c => { await Promise.all(Array.from({ length: c.int(2, 12) }, () => one(c))); });
  // the same options object serves any number of calls
  await ctx.section('again', ctx.n(60, 10), async c => {
    const opts = { hostname: '127.0.0.1', port: S.http.port, https: false, path: '/again', query: { a: word(c) }, headers: headers(c), body: c.pick([undefined, { a: word(c) }, 'text']) }, seen = []; c.ev(opts);
    for (let i = 0; i < 3; i++) { const id = ++seq, p = plan(c); p.status = 200; plans.set(id, p); opts.headers['x-plan'] = id; await request(opts); plans.delete(id); const e = p.seen[0]; seen.push([e.url, e.method, e.raw.filter((x, k) => !/^x-plan$/i.test(e.raw[k - (k % 2)])).join('|'), e.body.toString()]); }
    c.eq(seen[1], seen[0], 'again'); c.eq(seen[2], seen[0], 'again');
  });
  // options that are used as they are given, frozen options, and options that change while the request is under way
  await ctx.section('handed-on', 36, async (c, i) => {
    const id = ++seq, p = plan(c), kind = ['frozen', 'agent', 'lookup', 'signal', 'changed', 'changed-late'][i % 6]; Object.assign(p, { status: 200, wait: kind === 'signal' ? 3000 : 2 }); plans.set(id, p); c.ev([kind, i]); ctx.stat('handed_on');
    const freeze = o => { if (o && typeof o === 'object' && !ArrayBuffer.isView(o)) { Object.values(o).forEach(freeze); Object.freeze(o); } return o; }, [body, text] = [[{ a: 'x', l: ['1', '2'] }, 'a=x&l=1&l=2'], ['plain', 'plain'], [Buffer.from('bytes'), 'bytes']][(i / 6 | 0) % 3];
    const o = { method: 'post', headers: { 'X-Plan': id, 'X-Own': 'first' }, query: { k: 'v w' }, body }, url = `http://127.0.0.1:${S.http.port}/h`; let r, used = 0;
    if (kind === 'frozen') r = await request(...(i % 4 < 2 ? [url, freeze(o)] : [freeze({ ...o, hostname: '127.0.0.1', port: S.http.port, path: '/h', https: false })]));
    else if (kind === 'agent') { const agent = new http.Agent({ keepAlive: i % 4 < 2 }), create = agent.createConnection; agent.createConnection = function () { used++; c.ok(this === agent, 'agent', 'a copy of the agent was used'); return create.apply(this, arguments); }; r = await request(url, { ...o, agent }); c.ok(used === 1, 'agent', () => `the given agent made ${used} connections`); agent.destroy(); }
    else if (kind === 'lookup') { r = await request(`http://made.up:${S.http.port}/h`, { ...o, lookup: (h, x, cb) => { used++; c.eq(h, 'made.up', 'lookup-host'); x.all ? cb(null, [{ address: '127.0.0.1', family: 4 }]) : cb(null, '127.0.0.1', 4); } }); c.ok(used >= 1, 'lookup', 'the given lookup function was not used'); }
    else if (kind === 'signal') { const ac = new AbortController(), w = request(url, { ...o, signal: ac.signal }); if (i % 4 < 2) { for (let k = 0; !p.seen.length && k < 400; k++) await new Promise(x => setTimeout(x, 1)); } const t = Date.now(); ac.abort(); p.wait = 0; await c.rejects(w, 'signal', e => e instanceof Error); c.ok(Date.now() - t < 1500, 'signal-late', () => `rejected ${Date.now() - t} ms after the signal`); plans.delete(id + 0.5); return; }
    else { if (kind === 'changed-late') o.delay = 3; const w = request(url, o); if (kind === 'changed-late') await null; o.method = 'PUT'; o.headers['X-Own'] = 'second'; o.headers['X-New'] = '1'; o.query = { k: 'other' }; o.body = 'other'; delete o.headers['X-Plan']; r = await w; }
    plans.delete(id); const e = p.seen[0]; c.ok(p.seen.length === 1, 'requests', `${p.seen.length} requests arrive`); c.eq([e.method, e.url, e.body.toString(), sent(e, 'x-own'), sent(e, 'x-new')], ['POST', '/h?k=v+w', text, ['first'], []], 'handed-on', kind); c.ok(r.data.equals(p.raw), 'data', 'the answer differs');
  });
  // answers in thousands of chunks, large ones, and answers written by hand
  await ctx.section('long', 4, async (c, i) => {
    const id = ++seq, n = [1500, 5000, 0, 0][i], raw = i < 2 ? Buffer.from(Array.from({ length: n }, (_, k) => 97 + k % 26)) : bytes(c, [0, 0, 20e6, 3e6][i]); c.ev([i, raw.length]); const s = S[i === 3 ? 'https' : 'http'], r0 = s.reply;
    s.reply = async (req, e, res) => { if (i < 2) { for (const b of raw) res.write(Buffer.from([b])); res.end(); } else { res.writeHead(200, i === 3 ? { 'content-encoding': 'gzip' } : {}); res.end(i === 3 ? zlib.gzipSync(raw, { level: 1 }) : raw); } };
    const body = i === 2 ? bytes(c, 5e6) : undefined; let e; try { const r = await request(`http${i === 3 ? 's' : ''}://127.0.0.1:${s.port}/long`, { method: 'POST', body, headers: { 'content-type': 'application/octet-stream' } }); e = s.log.at(-1); c.ok(r.data.equals(raw), 'data', () => `an answer of ${raw.length} bytes arrives as ${r.data.length}`); if (body) c.ok(e.body.equals(body), 'body', () => `a body of ${body.length} bytes arrives as ${e.body.length}`); } finally { s.reply = r0; s.log.length = 0; }
  });
  const W = await rawServer(null);
  await ctx.section('by-hand', 24, async (c, i) => {
    const text = Buffer.from('body of ' + i), gz = zlib.gzipSync(text), [head, body, want, status, reason] = [['HTTP/1.1 200 \r\nContent-Length: 9\r\n', text.subarray(0, 9), text.subarray(0, 9), 200, ''], ['HTTP/1.0 404 Not  Found\r\n', text, text, 404, 'Not  Found'], ['HTTP/1.1 299 A b-c (d)\r\nconnection: close\r\n', text, text, 299, 'A b-c (d)'], ['HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n', '3;ext=1\r\nabc\r\n1\r\nd\r\n0\r\nx-trail: 1\r\n\r\n', Buffer.from('abcd'), 200, 'OK'], ['HTTP/1.1 200 OK\r\nCONTENT-ENCODING: GZip\r\n', gz, text, 200, 'OK'], ['HTTP/1.1 103 Early\r\nlink: x\r\n\r\nHTTP/1.1 201 Created\r\ncontent-length: 0\r\n', '', Buffer.alloc(0), 201, 'Created']][i % 6]; c.ev([head, i]);
    W.script = k => { k.write(head.replace(/\r\n$/, '\r\nConnection: close\r\n\r\n')); if (i % 2) setTimeout(() => k.end(body), 1); else k.end(body); }; const r = await request(`http://127.0.0.1:${W.port}/`); c.eq([r.status, r.statusText, r.data.toString('hex')], [status, reason, Buffer.from(want).toString('hex')], 'by-hand', head);
  });
  await W.close();
  await ctx.section('refused', ctx.n(60, 5), async c => {
    const bad = c.pick([() => request({}), () => request({ path: '/' }), () => request({ hostname: '', path: '/x', port: 1 }), () => request('not a url'), () => request('http://'), () => request(), () => request('http://127.0.0.1:1/'), () => request({ hostname: null }), () => request(`http://127.0.0.1:${S.http.port}/`, { method: 'B AD' }), () => request(`http://127.0.0.1:${S.http.port}/`, { headers: { 'x-a': 'b\r\nc: d' } })]); c.ev(String(bad)); const n = S.http.log.length;
    await c.rejects(bad(), 'refused', e => e instanceof Error); c.eq(S.http.log.length, n, 'refused-sent');
  });
  c0(ctx, S); await Promise.all(Object.values(S).map(s => s.close()));
}
const c0 = (ctx, S) => { for (const k in S) if (S[k].failed) throw S[k].failed; };
const shot = o => inspect(o, { depth: 9, maxArrayLength: null, maxStringLength: null });
