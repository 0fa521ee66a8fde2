import zlib from 'node:zlib';
import { load } from '../lib/bundle.mjs';
import { server, rawServer, dribble, sent } from '../lib/web.mjs';
import { openFds, settleFds } from '../lib/tree.mjs';
export const rule = 'random field sets sent as multipart bodies and parsed back; handlers stopping at random chunks of plain, encoded and endless answers; servers that close, reset, stall, truncate and corrupt at random points; non-trivial: distinct (fields) or (answer, stop or fault)';
export const assumptions = ['loopback TCP', 'timeouts are real time with wide margins'];
export default async function (ctx) {
  const { request } = load('request'), s = await server(), plans = new Map(), B = globalThis.Blob, F = globalThis.File ?? (await import('node:buffer')).File; let seq = 0;
  const url = id => `http://127.0.0.1:${s.port}/${id}`;
  s.reply = async (req, e, res) => { const p = plans.get(Number(e.url.slice(1))); p.seen.push(e); req.socket.on('close', () => p.closed = true); await p.go(res, e); };
  const bytes = (c, n) => { const b = Buffer.alloc(n); for (let i = 0; i < n; i++) b[i] = c.int(0, 255); return b; };
  // ---- multipart
  const NAMES = ['a', 'field', 'a b', '中文', 'q"uote', 'semi;colon', 'x=y', 'line\nbreak', 'cr\rlf\r\n', "it's", 'back\\slash', '%22', 'a.b', 'a[0]', '😀', '--', '&'];
  const VALS = ['', 'v', 'two words', '中文', 'line\nline', 'cr\rx', 'crlf\r\nx', '\n', '--form-data-boundary', '\r\n--x--\r\n', '"', 'a=b&c', '😀', ' lead', 'trail ', '\0', 'x'.repeat(5000)];
  const earlier = [], text = (c, more = []) => earlier.length && c.bool(0.1) ? c.pick(['\r\n--', '--', '\n--']) + c.pick(earlier) + c.pick(['', '--\r\n', '\r\n', '\r\nContent-Disposition: form-data; name="z"\r\n\r\nz']) : c.pick([...VALS, ...more]);
  const esc = n => n.replace(/[\r\n"]/g, x => ({ '\r': '%0D', '\n': '%0A', '"': '%22' })[x]), nl = v => v.replace(/\r\n|\r|\n/g, '\r\n');
  function parse(c, e) {
    const ct = sent(e, 'content-type'); c.eq(ct.length, 1, 'content-type-count'); const m = ct[0].match(/^multipart\/form-data; *boundary="?([^"]+)"?$/); c.ok(m && m[1].length <= 70 && /^[\w'()+,\-.\/:=?]+$/.test(m[1]), 'boundary', () => `Content-Type is ${ct[0]}`); c.ok(!earlier.includes(m[1]), 'boundary-again', () => `the boundary ${m[1]} is used again`); if (earlier.push(m[1]) > 200) earlier.shift();
    c.eq(sent(e, 'content-length'), [String(e.body.length)], 'content-length');
    const t = e.body.toString('latin1'), d = '--' + m[1], parts = [], head = () => `multipart body ${JSON.stringify(t.slice(0, 300))}`;
    if (t === d + '--\r\n' || t === d + '--') return parts;
    c.ok(t.startsWith(d + '\r\n') && /^--\r?\n?$/.test(t.slice(t.lastIndexOf(d) + d.length).replace('\r\n', '\n')), 'delimiters', head);
    const mid = ('\r\n' + t).split('\r\n' + d); c.eq(mid[0], '', 'preamble'); c.eq(mid.at(-1).trim(), '--', 'closing');
    for (const x of mid.slice(1, -1)) {
      const i = x.indexOf('\r\n\r\n'); c.ok(x.startsWith('\r\n') && i > 0, 'part', head); const hs = Buffer.from(x.slice(2, i), 'latin1').toString().split('\r\n'), disp = hs.filter(h => /^content-disposition:/i.test(h)), typ = hs.find(h => /^content-type:/i.test(h));
      c.eq(disp.length, 1, 'disposition-count', hs); const g = disp[0].match(/^content-disposition: form-data; name="([^"]*)"(?:; filename="([^"]*)")?$/i); c.ok(g, 'disposition', () => disp[0]); parts.push({ name: g[1], file: g[2], type: typ && typ.replace(/^content-type: */i, ''), body: Buffer.from(x.slice(i + 4), 'latin1') });
    }
    return parts;
  }
  async function send(c, body) {
    const id = ++seq, p = { seen: [], go: res => res.end('ok') }; plans.set(id, p); const r = await request(url(id), { method: c.pick(['POST', 'PUT', 'post']), body, headers: { [c.pick(['Content-Type', 'content-type', 'CONTENT-TYPE'])]: c.pick(['multipart/form-data', 'multipart/form-data; boundary=own']), 'x-a': '1' } });
    plans.delete(id); c.eq([r.status, r.data.toString(), p.seen.length], [200, 'ok', 1], 'sent'); c.eq(sent(p.seen[0], 'x-a'), ['1'], 'header-lost'); return parse(c, p.seen[0]);
  }
  function compare(c, parts, want) {
    c.eq(parts.map(p => p.name), want.map(w => esc(w.name)), 'field-names');
    parts.forEach((p, i) => { const w = want[i]; c.ok(p.body.equals(w.body), 'field-value', () => `field ${w.name} carries ${p.body.length} bytes ${JSON.stringify(p.body.toString('latin1').slice(0, 80))}, not the ${w.body.length} given`); c.eq(p.file, w.file === undefined ? undefined : esc(w.file), 'filename'); if (w.file !== undefined) c.eq(p.type, w.type || 'application/octet-stream', 'part-type'); }); ctx.stat('fields', parts.length);
  }
  const blob = c => { const b = bytes(c, c.weighted([[60, c.pick([0, 1, 50, 5000])], [1, 2.5e6]])), type = c.pick(['', 'image/png', 'text/plain']), name = c.pick([null, 'f.bin', 'q"x.txt', '中.txt', 'n\nl']); return { v: name === null ? new B([b], { type }) : new F([b], name, { type }), w: { body: b, file: name ?? 'blob', type } }; };
  await ctx.section('form', ctx.n(300, 12), async c => {
    const fd = new FormData(), want = []; for (let k = c.int(0, 7); k > 0; k--) { const name = c.pick(NAMES); if (c.bool(0.7)) { const v = text(c); fd.append(name, v); want.push({ name, body: Buffer.from(nl(v)) }); } else { const f = blob(c); fd.append(name, f.v); want.push({ name, ...f.w }); } }
    const n = [...fd].length; c.ev(want.map(w => [w.name, w.body.length, w.file])); compare(c, await send(c, fd), want); c.eq([...fd].length, n, 'form-changed');
  });
  await ctx.section('object', ctx.n(300, 12), async c => {
    const want = []; const leaf = name => { if (c.bool(0.8)) { const v = text(c, [5, -1.5, true, false, 0]); want.push({ name, body: Buffer.from(nl(String(v))) }); return v; } const f = blob(c); want.push({ name, ...f.w }); return f.v; };
    const build = (pre, d) => { const o = {}; for (const k of c.shuffle([...NAMES, '']).slice(0, c.int(0, 4))) o[k] = value(pre ? pre + '.' + k : k, d); return o; }, value = (name, d) => { const k = d > 0 ? c.int(0, 5) : 0; if (k === 4) return build(name, d - 1); if (k === 5) return Array.from({ length: c.int(0, 3) }, (_, i) => value(`${name}[${i}]`, d - 1)); return leaf(name); };
    const body = c.bool(0.9) ? build('', 3) : Array.from({ length: c.int(1, 3) }, (_, i) => value(`[${i}]`, 2)); c.ev(want.map(w => [w.name, w.body.length])); compare(c, await send(c, body), want);
  });
  // ---- handlers
  await ctx.section('handlers', ctx.n(400, 12), async c => {
    const raw = bytes(c, c.pick([0, 1, 500, 30000, 200000])), enc = c.pick([null, null, 'gzip', 'deflate', 'br']), wire = enc === 'gzip' ? zlib.gzipSync(raw) : enc === 'deflate' ? zlib.deflateSync(raw) : enc === 'br' ? zlib.brotliCompressSync(raw) : raw, endless = !enc && c.bool(0.3), id = ++seq, status = c.pick([200, 404, 302]);
    const p = { seen: [], closed: false, async go(res) { res.writeHead(status, enc ? { 'content-encoding': enc } : {}); await dribble(c, res, wire); if (endless) { const t = setInterval(() => res.write('more'), 1); res.on('close', () => clearInterval(t)); } else res.end(); } }; plans.set(id, p);
    const stopHead = c.bool(0.2), stopAt = endless || c.bool(0.6) ? c.int(1, 4) : Infinity, calls = [], got = [], h = {}; let over = false, ended = false, late = 0; const give = c.pick([true, true, 1, 'x']), no = c.pick([undefined, false, 0]);
    if (stopHead || c.bool(0.7)) h.header = (res, o) => { if (stopHead) ended = true; calls.push('h'); if (over) late++; c.soft ??= null; p.head = [res.statusCode, typeof o, o && o.path]; return stopHead ? give : no; };
    if (endless || c.bool(0.8)) h.data = (chunk, res) => { calls.push('d'); if (over || ended) late++; p.code = res.statusCode; got.push(Buffer.from(chunk)); if (calls.filter(x => x === 'd').length >= stopAt) { over = true; return give; } return no; };
    c.ev([raw.length, enc, endless, stopHead, stopAt, Object.keys(h)]); const r = await request(url(id), { timeout: 20000 }, h);
    const what = () => `a ${endless ? 'endless ' : ''}answer of ${raw.length} bytes ${enc ?? ''}, stop at ${stopHead ? 'header' : stopAt}, calls ${calls.join('').slice(0, 20)}`;
    if (h.header) { c.eq(p.head, [status, 'object', '/' + id], 'header-args'); c.eq([calls.filter(x => x === 'h').length, calls[0]], [1, 'h'], 'header-call'); }
    const full = Buffer.concat(got), nd = got.length, stopped = stopHead && h.header || over;
    if (stopHead && h.header) { c.eq([nd, r.data.length], [0, 0], 'stop-header', what()); } else if (over) { const w = Buffer.concat(got.slice(0, stopAt - 1)); c.ok(r.data.equals(w), 'stop-data', () => `stopping at chunk ${stopAt} gives ${r.data.length} bytes, not the ${w.length} received before (${what()})`); c.ok(w.equals(raw.subarray(0, w.length)) || endless, 'stop-bytes', what); } else { c.ok(r.data.equals(raw), 'full-data', what); if (h.data) c.ok(full.equals(raw), 'chunks', () => `the data handler saw ${full.length} of ${raw.length} bytes in order (${what()})`); }
    c.eq([r.status, r.error], [status, null], 'result', what());
    if (stopped && (endless || raw.length > 100000)) { const end = performance.now() + 4000; while (!p.closed && performance.now() < end) await new Promise(x => setTimeout(x, 2)); c.ok(p.closed, 'transfer-goes-on', () => `the connection stays open after the handler stopped it (${what()})`); ctx.stat('stopped_open'); }
    await new Promise(x => setTimeout(x, 1)); c.eq(late, 0, 'handler-after-stop', what()); plans.delete(id); ctx.stat(stopped ? 'stopped' : 'complete');
  });
  // ---- a handler that throws: the call rejects with its error, once, and the connection closes
  await ctx.section('handler-throws', ctx.n(120, 12), async c => {
    const raw = bytes(c, c.pick([1, 500, 200000])), enc = c.pick([null, null, 'gzip', 'deflate', 'br']), wire = enc === 'gzip' ? zlib.gzipSync(raw) : enc === 'deflate' ? zlib.deflateSync(raw) : enc === 'br' ? zlib.brotliCompressSync(raw) : raw, endless = !enc && c.bool(0.3), id = ++seq, err = c.pick([new Error('mine'), new TypeError('type'), new RangeError('range'), Object.freeze(new Error('frozen'))]), at = c.int(0, 2);
    const p = { seen: [], closed: false, async go(res) { res.writeHead(200, enc ? { 'content-encoding': enc } : {}); await dribble(c, res, wire); if (endless) { const t = setInterval(() => res.write('more'), 1); res.on('close', () => clearInterval(t)); } else res.end(); } }; plans.set(id, p); let n = 0, late = 0, thrown = false; const boom = () => { if (thrown) late++; thrown = true; throw err; };
    const h = at === 0 ? { header: boom, data: () => { late++; } } : { data: () => { if (thrown) late++; if (++n >= at) boom(); } }; c.ev([raw.length, enc, endless, at, err.name]); const out = [], stray = [], on = e => stray.push(e); process.on('uncaughtException', on); process.on('unhandledRejection', on);
    try { request(url(id), { timeout: 20000 }, h).then(v => out.push(['ok', v]), e => out.push(['err', e])); const lim = performance.now() + 5000; while (!out.length && !stray.length && performance.now() < lim) await new Promise(x => setTimeout(x, 1)); await c.drain(); await new Promise(x => setTimeout(x, 2)); } finally { process.off('uncaughtException', on); process.off('unhandledRejection', on); }
    const what = `a handler throwing at ${at ? 'chunk ' + at : 'the header'} of ${raw.length} bytes ${enc ?? ''}${endless ? ', endless' : ''}`; c.ok(!stray.length, 'handler-error-escapes', () => `${what}: ${stray[0]} is thrown elsewhere`); c.ok(out.length === 1, 'settles', () => `${what}: settles ${out.length} times`);
    if (thrown) { const [how, e] = out[0]; c.ok(how === 'err' && (e === err || e?.error === err || e?.cause === err || e?.cause?.error === err), 'handler-error', () => `${what}: ${how} ${how === 'ok' ? '' : e}`); const end = performance.now() + 4000; while (endless && !p.closed && performance.now() < end) await new Promise(x => setTimeout(x, 2)); if (endless) c.ok(p.closed, 'transfer-goes-on', () => `${what}: the connection stays open`); ctx.stat('handler_threw'); } c.eq(late, 0, 'handler-after-throw', what); plans.delete(id);
  });
  // ---- faults: every call settles once, with a usable reason
  const raw = await rawServer(null);
  await ctx.section('faults', ctx.n(300, 10), async c => {
    const data = bytes(c, c.pick([10, 3000, 50000])), gz = zlib.gzipSync(data), kind = c.pick(['close', 'reset', 'head', 'length', 'length-gzip', 'chunked', 'chunked-gzip', 'bad-gzip', 'bad-br', 'bad-crc-head', 'garbage', 'stall', 'stall-body', 'refused', 'slow-head']), cut = c.int(0, 9), H = x => `HTTP/1.1 200 OK\r\n${x}\r\n`; let opts = { timeout: 15000 }, port = raw.port, t = 0;
    const part = (b, k) => b.subarray(0, Math.min(b.length - 1, Math.floor(b.length * k / 10)));
    const end = (k, how) => how === 'reset' ? k.resetAndDestroy ? k.resetAndDestroy() : k.destroy() : k.end(); const how = c.pick(['end', 'reset']);
    raw.script = k => {
      if (kind === 'close') k.end(); else if (kind === 'reset') end(k, 'reset'); else if (kind === 'head') { k.write('HTTP/1.1 200 OK\r\nContent-'); setTimeout(() => end(k, how), 2); }
      else if (kind.startsWith('length')) { const b = kind === 'length' ? data : gz; k.write(H(`Content-Length: ${b.length}\r\n${kind === 'length' ? '' : 'Content-Encoding: gzip\r\n'}`)); k.write(part(b, cut)); setTimeout(() => end(k, how), c.int(0, 5)); }
      else if (kind.startsWith('chunked')) { const b = kind === 'chunked' ? data : gz; k.write(H(`Transfer-Encoding: chunked\r\n${kind === 'chunked' ? '' : 'Content-Encoding: gzip\r\n'}`)); k.write(b.length.toString(16) + '\r\n'); k.write(part(b, cut)); setTimeout(() => end(k, how), c.int(0, 5)); }
      else if (kind === 'bad-gzip') { k.write(H('Content-Encoding: gzip\r\nContent-Length: 40\r\n')); k.end(Buffer.concat([Buffer.from('nope'), bytes(c, 36)])); }
      else if (kind === 'bad-crc-head') { const b = Buffer.from(gz); b[2] = 77; k.write(H(`Content-Encoding: gzip\r\nContent-Length: ${b.length}\r\n`)); k.end(b); }
      else if (kind === 'bad-br') { k.write(H('Content-Encoding: br\r\nContent-Length: 40\r\n')); k.end(Buffer.alloc(40, 0xff)); }
      else if (kind === 'garbage') k.end(c.pick(['hello\r\n\r\n', 'HTTP/9.9 200 OK\r\n\r\n', 'HTTP/1.1 abc\r\n\r\n', 'HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n']));
      else if (kind === 'stall-body') { k.write(H(`Content-Length: ${data.length}\r\n`)); k.write(part(data, cut)); }
      else if (kind === 'slow-head') { k.write('HTTP/1.1 200 OK\r\n'); }
    };
    if (kind.startsWith('stall') || kind === 'slow-head') { t = c.int(20, 60); opts = { timeout: t }; } if (kind === 'refused') port = 1; c.ev([kind, cut, how, data.length]);
    const out = [], t0 = performance.now(), p = request(`http://127.0.0.1:${port}/x`, { ...opts, maxRedirects: c.pick([0, 3, undefined]) }); p.then(v => out.push(['ok', v]), e => out.push(['err', e])); const lim = t0 + 8000; while (!out.length && performance.now() < lim) await new Promise(x => setTimeout(x, 1));
    const dt = performance.now() - t0; await c.drain(); c.ok(out.length === 1, 'settles', () => `a request whose answer fails with ${kind} settles ${out.length} times in ${Math.round(dt)} ms`);
    if (kind === 'stall' || kind === 'stall-body' || kind === 'slow-head') { const end = performance.now() + 4000; while (raw.sockets.size && performance.now() < end) await new Promise(x => setTimeout(x, 1)); c.ok(!raw.sockets.size, 'timeout-open', () => `the connection stays open after the request timed out (${kind})`); }
    const [how2, v] = out[0]; c.ok(how2 === 'err', 'failure-hidden', () => `a request whose answer fails with ${kind} (cut ${cut}) resolves with ${v?.data?.length} bytes of ${data.length}`);
    c.ok(v && typeof v.then !== 'function' && (v instanceof Error || v.error instanceof Error), 'reason', () => `a request whose answer fails with ${kind} rejects with ${Object.prototype.toString.call(v)}`);
    if (!(v instanceof Error) && kind === 'length') c.ok(part(data, cut).subarray(0, v.data.length).equals(v.data), 'partial', 'the bytes of the failed result were not sent'); if (t) c.ok(dt >= t - 3, 'timeout-early', () => `times out after ${dt} ms, not ${t}`); ctx.stat('fault_' + kind);
  });
  // no answer is mixed up and nothing stays open
  await ctx.section('delay', ctx.n(10, 5), async c => { const d = c.int(5, 60), id = ++seq, p = { seen: [], go: res => { p.at = performance.now(); res.end('x'); } }; plans.set(id, p); c.ev(d); const t0 = performance.now(); await request(url(id), { delay: d }); c.ok(p.at - t0 >= d - 2, 'delay', () => `a request delayed by ${d} ms arrives after ${p.at - t0}`); });
  if (s.failed) throw s.failed; await Promise.all([s.close(), raw.close()]);
}
