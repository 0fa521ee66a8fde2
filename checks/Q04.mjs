import http from 'node:http';
import https from 'node:https';
import { load } from '../lib/bundle.mjs';
import { server } from '../lib/web.mjs';
export const rule = 'random host lists and answers of stand-in lookup services reached over loopback; non-trivial: distinct (hosts, answers)';
export const assumptions = ['http.request and https.request are redirected to a loopback server, whatever host they name', 'answers follow the format of the services'];
export default async function (ctx) {
  const s = await server(), real = http.request; let asked = [];
  const divert = secure => (o, cb) => { asked.push({ secure, hostname: o.hostname, path: o.path, method: o.method }); const { agent, ...r } = o; return real({ ...r, hostname: '127.0.0.1', port: s.port, agent: false }, cb); };
  http.request = divert(false); https.request = divert(true);
  const { queryDNS, publicIP } = load('request'); let answer; s.reply = (req, e, res) => answer(e, res);
  const ip = c => [c.int(1, 255), c.int(0, 255), c.int(0, 255), c.int(0, 255)].join('.');
  await ctx.section('dns', ctx.n(250, 10), async (c, i) => {
    const hosts = i % 80 === 40 ? Array.from({ length: 70 }, (_, k) => 'h' + k + '.example') : c.subset(['github.com', 'a.example', 'b.example', '中文.cn', 'x-y.org', 'sub.deep.example.net', 'localhost', 'a&b', 'UPPER.com', 'p q']), list = c.bool(0.2) ? hosts.concat(hosts.slice(0, 1)) : hosts, recs = {}, fail = new Set(), seen = [];
    for (const h of hosts) { recs[h] = Array.from({ length: c.int(1, 4) }, () => ip(c)); if (c.bool(0.2)) recs[h].push(recs[h][0]); if (c.bool(0.2)) recs[h].sort().reverse(); if (c.bool(0.2)) fail.add(h); }
    answer = (e, res) => { const h = new URLSearchParams(e.url.split('?')[1]).get('dn'); seen.push(h); if (fail.has(h)) { res.writeHead(c.pick([404, 500, 204, 403])); return res.end(); } const t = Buffer.from((recs[h] ?? []).join(';')); if (c.bool()) { res.write(t.subarray(0, 3)); setTimeout(() => res.end(t.subarray(3)), 1); } else res.end(t); };
    asked = []; const one = list.length === 1 && c.bool(), arg = one ? list[0] : list.slice(), keep = JSON.stringify(arg); c.ev([list, [...fail]]); const r = await queryDNS(arg), uniq = [...new Set(list)];
    c.eq(Object.keys(r).sort(), uniq.slice().sort(), 'hosts'); for (const h of uniq) c.eq(r[h], fail.has(h) ? [] : recs[h], 'addresses', h); c.eq(JSON.stringify(arg), keep, 'argument-changed');
    c.ok(uniq.every(h => seen.includes(h)) && seen.every(h => uniq.includes(h)), 'asked', () => `asked for ${seen}, expected ${list}`); for (const a of asked) c.eq([a.secure, a.hostname, a.path.split('?')[0], a.method], [false, '119.29.29.29', '/d', 'GET'], 'service'); ctx.stat('lookups', seen.length);
  });
  await ctx.section('at-once', ctx.n(30, 8), async c => {
    answer = (e, res) => { const h = new URLSearchParams(e.url.split('?')[1]).get('dn'); setTimeout(() => res.end(h + '-1;' + h + '-2'), c.int(0, 5)); }; const lists = Array.from({ length: c.int(2, 6) }, () => c.subset(['a', 'b', 'c', 'd'])); c.ev(lists);
    const rs = await Promise.all(lists.map(l => queryDNS(l))); rs.forEach((r, i) => c.eq(r, Object.fromEntries(lists[i].map(h => [h, [h + '-1', h + '-2']])), 'mixed'));
  });
  const GBK = { '中国': [0xd6, 0xd0, 0xb9, 0xfa], '北京市': [0xb1, 0xb1, 0xbe, 0xa9, 0xca, 0xd0], 'GERMANY': [...Buffer.from('GERMANY')], '': [] };
  await ctx.section('ip', ctx.n(150, 10), async c => {
    const name = c.pick(Object.keys(GBK)), cip = ip(c), cid = c.pick(['110000', 'DE', 'CN']), kind = c.pick(['ok', 'ok', 'ok', 'status', 'format', 'format2']), body = Buffer.concat([Buffer.from(kind === 'format' && c.bool(0.3) ? `/**/var returnCitySN = {"cip": "${cip}", "cid": "${cid}", "cname": "` : kind === 'format' ? c.pick(['<html>', '<html>var returnCitySN = {"cip": "', 'throw 1;var returnCitySN = {', 'VAR returnCitySN = {', '', 'var returnCitySN={']) : kind === 'format2' ? ' var returnCity = {' : `var returnCitySN = {"cip": "${cip}", "cid": "${cid}", "cname": "`), Buffer.from(GBK[name]), Buffer.from('"};')]); c.ev([name, cip, kind]);
    answer = (e, res) => { res.writeHead(kind === 'status' ? c.pick([404, 500, 302, 201]) : 200); const k = c.int(0, body.length); res.write(body.subarray(0, k)); res.end(body.subarray(k)); }; asked = [];
    const p = publicIP(); if (kind === 'ok') c.eq(await p, { ip: cip, city: { id: cid, name } }, 'ip'); else await c.rejects(p, 'ip-invalid'); c.eq([asked.length, asked[0].hostname, asked[0].path], [1, 'pv.sohu.com', '/cityjson'], 'ip-asked');
  });
  if (s.failed) throw s.failed; await s.close();
}
