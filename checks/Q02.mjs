import { createRequire } from 'node:module';
import { inspect, isDeepStrictEqual } from 'node:util';
import { load } from '../lib/bundle.mjs';
import { server, sent } from '../lib/web.mjs';
export const rule = 'random redirect chains over several host names and ports, status codes and Location forms, with credentials in every place, several chains at once; each server logs what arrives; non-trivial: distinct (chain, credentials)';
export const assumptions = ['hosts are loopback addresses and made-up names resolved to them, different texts being different host names', 'IPv6 is left out where the sandbox has no ::1'];
const shot = o => inspect(o, { depth: 9, maxArrayLength: null, maxStringLength: null });
export default async function (ctx) {
  // host names that resemble each other, each with a loopback address of its own
  const NAMES = ['site.test', 'www.site.test', 'mysite.test', 'site.test.evil', 'site.tes', 'other.test', 'site.testing', 'a.b'], ip = h => NAMES.includes(h) ? `127.0.3.${NAMES.indexOf(h) + 1}` : h;
  const dns = createRequire(import.meta.url)('dns'), lookup = dns.lookup; dns.lookup = (h, o, cb) => { if (typeof o === 'function') { cb = o; o = {}; } if (!NAMES.includes(h)) return lookup.call(dns, h, o, cb); const a = ip(h); setImmediate(() => o && o.all ? cb(null, [{ address: a, family: 4 }]) : cb(null, a, 4)); };
  const { request } = load('request'), S = [await server(), await server(), await server({ secure: true })], plans = new Map(); let seq = 0;
  S.forEach((s, si) => { s.reply = (req, e, res) => {
    const [, id, k] = e.url.match(/^\/p(\d+)\/(\d+)/) ?? [], p = plans.get(Number(id)); if (!p) { res.writeHead(500); return res.end(); }
    p.seen.push({ ...e, server: si, k: Number(k) }); const h = p.hops[k], end = () => { if (h) { res.writeHead(h.status, { location: h.location, 'content-type': 'text/plain' }); res.end('moved ' + k); } else { res.writeHead(p.final, { 'x-end': '1' }); res.end('end ' + id); } };
    p.c.bool(0.2) ? setTimeout(end, p.c.int(0, 4)) : end();
  }; });
  const HOSTS = ['127.0.0.1', '127.0.0.2', '127.0.0.12', '127.9.9.9', '127.0.0.1', ...NAMES];
  const turns = (m, status) => m === 'POST' && (status === 301 || status === 302) || status === 303 && m !== 'GET' && m !== 'HEAD';
  async function one(c) {
    const id = ++seq, n = c.pick([0, 1, 1, 2, 3, 3, 5, 8]), wander = c.pick([0, 0.2, 0.6]), at = [{ host: c.pick([...HOSTS, 'site.test', 'site.test']), s: c.pick([0, 1, 0, 1, 2]) }], hops = [];
    const origin = a => `${S[a.s].secure ? 'https' : 'http'}://${a.host}:${S[a.s].port}`, path = k => `/p${id}/${k}` + c.pick(['', '?a=1&b=%20', '?x=/y', '/deep/er']);
    const paths = [`/p${id}/0`]; let method = c.pick(['GET', 'POST', 'POST', 'PUT', 'DELETE', 'PATCH']);
    const body = c.pick([undefined, 'text body', { a: '1', b: 'x y' }, Buffer.from([1, 2, 255])]), json = c.bool(0.3); const start = method; let m = method;
    for (let k = 0; k < n; k++) {
      const cur = at[k], next = c.bool(wander) ? { host: c.pick(HOSTS), s: c.pick([0, 1, 0, 1, 2]) } : c.bool(0.2) ? { host: cur.host, s: (cur.s + c.int(1, 2)) % 3 } : cur; at.push(next);
      const p = path(k + 1); paths.push(p); const same = next.host === cur.host && next.s === cur.s, rel = same && c.bool(0.5);
      const status = c.pick(m === 'GET' ? [301, 302, 303, 307, 308, 300, 305, 310, 399] : [301, 302, 303, 307, 308]);
      const noise = c.bool(0.1) ? '#frag' : '';
      hops.push({ status, location: (rel ? c.pick([p, `//${next.host}:${S[next.s].port}${p}`, '../'.repeat(5) + p.slice(1)]) : c.bool(0.15) ? `${origin(next).replace(/^\w+/, x => x.toUpperCase())}${p}` : origin(next) + p) + noise });
      if (turns(m, status)) m = 'GET';
    }
    const h = {}, cookie = c.bool(0.7), authz = c.bool(0.5), auth = !authz && c.bool(0.5), emb = !authz && !auth && c.bool(0.3); if (cookie) h[c.pick(['Cookie', 'cookie', 'COOKIE'])] = 'sid=secret'; if (authz) h[c.pick(['Authorization', 'authorization', 'AUTHORIZATION'])] = 'Bearer secret'; h[c.pick(['X-Token', 'x-token'])] = 'keep'; if (json && body && typeof body === 'object' && !Buffer.isBuffer(body)) h[c.pick(['Content-Type', 'content-type'])] = 'application/json';
    const ownHost = c.bool(0.25); if (body && c.bool(0.15)) h[c.pick(['Content-Length', 'content-length'])] = '7'; if (ownHost) h[c.pick(['Host', 'host', 'HOST'])] = 'virtual.test'; const max = c.pick([undefined, undefined, 0, 1, 2, 3, n, n + 1, 21]), opts = { method: start, ...(c.bool(0.9) || cookie || authz || ownHost ? { headers: h } : {}) }; if (body !== undefined) opts.body = body; if (max !== undefined) opts.maxRedirects = max; if (auth) opts.auth = 'user:se:cret';
    const p = { c, hops, final: c.pick([200, 404, 201]), seen: [] }; plans.set(id, p); let args;
    const useOpt = c.bool(0.3), q = c.bool(0.3) ? { q: 'x y' } : undefined; if (q) opts.query = q;
    if (useOpt) { Object.assign(opts, { hostname: at[0].host, port: S[at[0].s].port, path: paths[0], https: S[at[0].s].secure }); args = [opts]; } else args = [emb ? origin(at[0]).replace('//', '//us%40er:p%3Aw@') + paths[0] : origin(at[0]) + paths[0], opts];
    const keep = shot(opts); c.ev([hops.map((x, i) => [x.status, at[i + 1].host, at[i + 1].s]), start, max, cookie, authz, auth, emb, typeof body]);
    const what = () => `${start} over ${at.map(a => a.host + '/' + a.s).join(' -> ')} with ${hops.map(x => x.status)} and maxRedirects ${max}`;
    const calls = [], chunks = [], handled = c.bool(0.4) ? { header: res => { calls.push(res.statusCode); }, data: d => { chunks.push(Buffer.from(d)); } } : undefined; if (handled) args.push(handled); const r = await request(...args); plans.delete(id);
    const follow = Math.min(max ?? 21, n); c.eq(p.seen.map(e => e.k), [...Array(follow + 1).keys()], 'followed', what());
    if (handled) { c.eq([calls, Buffer.concat(chunks).toString()], [[r.status], r.data.toString()], 'handlers', what()); ctx.stat('handled'); }
    let creds = true, first = true; m = start; let has = body !== undefined && body !== '', pay = null, ctype = null;
    p.seen.forEach((e, k) => {
      if (k && at[k].host !== at[k - 1].host) creds = false; if (k && turns(m, hops[k - 1].status)) { m = 'GET'; has = false; }
      c.eq([e.local, e.server], [ip(at[k].host), at[k].s], 'target', what()); c.eq(e.url, k ? paths[k] : paths[0] + (q ? '?q=x+y' : ''), 'path', what()); c.eq(e.method, m, 'method', [k, what()]);
      c.eq(sent(e, 'x-token'), opts.headers ? ['keep'] : [], 'other-header', what());
      if (k && at[k].host !== at[k - 1].host) first = false; c.eq(sent(e, 'host'), [ownHost && first ? 'virtual.test' : `${at[k].host}:${S[at[k].s].port}`], 'host-header', [k, what()]);
      const secrets = [...sent(e, 'cookie'), ...sent(e, 'authorization')];
      if (!creds) c.ok(!secrets.length, 'leak', () => `${secrets} is sent to ${at[k].host}, after leaving the first host (hop ${k} of ${what()})`);
      else { c.eq(sent(e, 'cookie'), cookie ? ['sid=secret'] : [], 'cookie', [k, what()]); if (!(emb && k)) c.eq(sent(e, 'authorization'), authz ? ['Bearer secret'] : auth ? ['Basic ' + Buffer.from('user:se:cret').toString('base64')] : emb && !useOpt ? ['Basic ' + Buffer.from('us@er:p:w').toString('base64')] : [], 'authorization', [k, what()]); }
      if (!has) c.ok(!e.body.length && !Number(sent(e, 'content-length')[0] ?? 0), 'body-left', () => `a body of ${e.body.length} bytes is sent with ${e.method} (hop ${k} of ${what()})`); else { if (!pay) { pay = e.body; ctype = sent(e, 'content-type'); } c.ok(e.body.length > 0 && e.body.equals(pay), 'body-lost', () => `hop ${k} carries ${JSON.stringify(e.body.toString())}, not ${JSON.stringify(pay.toString())} (${what()})`); c.eq(sent(e, 'content-type'), ctype, 'content-type'); }
      ctx.stat('hops'); if (!creds) ctx.stat('hops_elsewhere');
    });
    if (follow < n) { c.eq([r.status, r.data.toString()], [hops[follow].status, 'moved ' + follow], 'limit', what()); ctx.stat('limited'); } else c.eq([r.status, r.data.toString()], [p.final, 'end ' + id], 'end', what());
    c.eq(r.error, null, 'error'); c.ok(shot(opts) === keep, 'options-changed', () => `the caller's options changed from ${keep} to ${shot(opts)} (${what()})`);
  }
  await ctx.section('chain', ctx.n(900, 12), one);
  await ctx.section('at-once', ctx.n(40, 10), async c => { await Promise.all(Array.from({ length: c.int(2, 10) }, () => one(c))); });
  await ctx.section('default-limit', ctx.n(3, 4), async c => {
    const id = ++seq, n = c.int(22, 30), a = `http://127.0.0.1:${S[0].port}`, p = { c, hops: Array.from({ length: n }, (_, k) => ({ status: 302, location: `${a}/p${id}/${k + 1}` })), final: 200, seen: [] }; plans.set(id, p); c.ev(n);
    const r = await request(`${a}/p${id}/0`); c.eq([p.seen.length, r.status], [22, 302], 'default-limit'); plans.delete(id);
  });
  // the same options object, again after a chain that left the host
  await ctx.section('reuse', ctx.n(40, 8), async c => {
    const opts = { headers: { Cookie: 'sid=secret' }, method: 'POST', body: 'b', maxRedirects: 2, auth: 'u:p' }, keep = shot(opts); c.ev(seq);
    for (let i = 0; i < 3; i++) { const id = ++seq, p = { c, hops: [{ status: c.pick([301, 307]), location: `http://${c.pick(['127.0.0.1', '127.0.0.2'])}:${S[1].port}/p${id}/1` }], final: 200, seen: [] }; plans.set(id, p); await request(`http://127.0.0.1:${S[0].port}/p${id}/0`, opts); c.eq([p.seen[0].method, sent(p.seen[0], 'cookie'), p.seen[0].body.toString(), p.seen.length], ['POST', ['sid=secret'], 'b', 2], 'reuse'); plans.delete(id); }
    c.ok(shot(opts) === keep, 'options-changed', () => `options changed to ${shot(opts)}`);
  });
  // a caller that changes its options object while a redirect is under way
  await ctx.section('changed', 24, async (c, i) => {
    const s = S[i % 2], r0 = s.reply, seen = [], status = [301, 307, 308, 302][i % 4], host = ['127.0.0.1', 'other.test'][(i >> 2) % 2]; s.reply = (req, e, res) => { seen.push(e); setTimeout(() => { if (seen.length < 3) { res.writeHead(status, { location: `http://${host}:${s.port}/hop${seen.length}` }); res.end(); } else res.end('end'); }, 3); };
    const o = { method: 'PUT', headers: { 'X-Own': 'first', Cookie: 'a=1' }, body: 'first', maxRedirects: 5 }; c.ev([status, host, i]); ctx.stat('changed');
    try {
      const w = request(`http://127.0.0.1:${s.port}/hop0`, i % 3 ? o : Object.freeze({ ...o, headers: Object.freeze(o.headers) })); for (let k = 0; !seen.length && k < 400; k++) await new Promise(x => setTimeout(x, 1));
      if (i % 3) { o.method = 'PATCH'; o.body = 'second'; o.maxRedirects = 0; o.headers['X-Own'] = 'second'; o.headers['X-New'] = '1'; o.auth = 'u:p'; if (i % 3 === 2) o.headers = { 'X-New': '2' }; }
      const r = await w; c.eq(seen.map(e => [e.method, e.url, e.body.toString(), sent(e, 'x-own'), sent(e, 'x-new'), sent(e, 'cookie'), sent(e, 'authorization')]), [0, 1, 2].map(k => ['PUT', '/hop' + k, 'first', ['first'], [], k && host === 'other.test' ? [] : ['a=1'], []]), 'changed', 'a later hop does not carry what the request was called with'); c.eq(r.data.toString(), 'end', 'end');
    } finally { s.reply = r0; }
  });
  await ctx.section('bad-location', ctx.n(60, 6), async c => {
    const id = ++seq, loc = c.pick(['http://', 'http://[', 'http://[::', 'http://a b/', 'https://', 'http://:80']), p = { c, hops: [{ status: 302, location: loc }], final: 200, seen: [] }; plans.set(id, p); c.ev(loc); let out = [];
    await request(`http://127.0.0.1:${S[0].port}/p${id}/0`).then(r => out.push('ok'), e => out.push(e)); await c.drain(); plans.delete(id); c.ok(out.length === 1 && out[0] instanceof Error, 'bad-location', () => `a redirect to ${loc} gives ${out}`);
  });
  // the IPv6 loopback, named by its address
  const six = await server({ host: '::' }).catch(() => null);
  if (six) {
    await ctx.section('ipv6', ctx.n(40, 6), async c => {
      const id = ++seq, n = c.int(0, 3), leave = c.int(0, 4), text = c.pick(['[::1]', '[0:0:0:0:0:0:0:1]', '[::1]']), base = `http://${text}:${six.port}`, seen = [], status = c.pick([301, 302, 307]), path = k => `/p${id}/${k}`; c.ev([n, leave, text, status]);
      six.reply = (req, e, res) => { seen.push(e); const k = Number(e.url.split('/')[2]); if (k < n) res.writeHead(status, { location: k === leave ? `http://127.0.0.1:${six.port}${path(k + 1)}` : c.bool() ? path(k + 1) : base + path(k + 1) }); res.end('six' + k); };
      const headers = { cookie: 'sid=secret' }, auth = 'u:p', opts = text !== '[::1]' || c.bool() ? [base + path(0), { headers, auth }] : [{ hostname: text.slice(1, -1), port: six.port, path: path(0), https: false, headers, auth }], r = await request(...opts);
      c.eq([seen.map(e => e.url), r.status, r.data.toString()], [Array.from({ length: n + 1 }, (_, k) => path(k)), 200, 'six' + n], 'ipv6', opts); seen.forEach((e, k) => { if (k <= leave) c.eq(e.local, '::1', 'ipv6-target'); if (k > leave) c.eq([...sent(e, 'cookie'), ...sent(e, 'authorization')], [], 'leak'); else { c.eq(sent(e, 'cookie'), ['sid=secret'], 'cookie', [k, opts]); c.eq(sent(e, 'authorization').length, 1, 'authorization', [k, opts]); if (opts.length === 1 && !k) c.eq(sent(e, 'host'), [`${text}:${six.port}`], 'host-header'); } }); ctx.stat('ipv6', seen.length);
    });
    S.push(six);
  }
  for (const s of S) if (s.failed) throw s.failed; await Promise.all(S.map(s => s.close()));
}
