// Check context: sections of seeded cases, verdict collection, coverage counting.
import fs from 'node:fs';
import { inspect, isDeepStrictEqual } from 'node:util';
import { Rng, hashStr } from './rng.mjs';
export const show = (v, depth = 6) => { try { return inspect(v, { depth, maxArrayLength: 60, maxStringLength: 400, breakLength: 160, compact: 10 }); } catch { return Object.prototype.toString.call(v); } };
export class Violation extends Error { constructor(key, msg, witness) { super(msg); this.key = key; this.witness = witness; } }
export class Inconclusive extends Error { }
const ENVERR = new Set(['ENOSPC', 'EMFILE', 'ENFILE', 'ENOMEM', 'EAGAIN', 'EADDRINUSE', 'EADDRNOTAVAIL']);
export class Ctx {
  constructor({ id, tier, seed, only, heartbeat }) {
    Object.assign(this, { id, tier, seed, only });
    this.thorough = tier === 'thorough';
    this.hb = heartbeat; this.counter = 0;
    this.evaluations = 0; this.distinct = new Set(); this.samples = []; this.violations = []; this.known = []; this.notes = []; this.stats = {};
    this.keys = new Set(); this.perSection = {}; this.inconclusive = [];
    this.realSetImmediate = setImmediate; this.realNow = Date.now; this.t0 = Date.now();
    this.budgetMs = this.thorough ? 600000 : 45000;
    this.unhandled = [];
    process.on('unhandledRejection', e => this.unhandled.push(e));
  }
  /** run the rest as an unprivileged user: an escaped deletion or write can reach nothing real */
  unprivileged(uid = 65534) {
    if (process.getuid() !== 0) return;
    this.reportFd = fs.openSync(this.reportFile, 'w');
    process.setgroups([]); process.setgid(uid); process.setuid(uid);
    if (process.getuid() !== uid) throw new Error('cannot drop privileges');
  }
  n(quick, factor = 20) { return this.thorough ? quick * factor : quick; }
  beat(label) {
    this.label = label;
    if (this.hb != null) { const b = Buffer.alloc(256, 32); b.write(`${++this.counter} ${label}`.slice(0, 250)); fs.writeSync(this.hb, b, 0, 256, 0); }
  }
  /** run `count` cases of fn(c, i); each case has its own generator derived from (seed, section, index) */
  async section(name, count, fn) {
    const sec = this.perSection[name] = { cases: 0, evaluations: 0 };
    for (let i = 0; i < count; i++) {
      const label = `${name}#${i}`;
      if (this.only && this.only !== label) continue;
      if (this.violations.length >= 5) return;
      if (this.realNow.call(Date) - this.t0 > this.budgetMs) { this.stats.budget_cut = `${label}: time budget reached`; break; }
      this.beat(label);
      const c = new Case(this, new Rng(hashStr(`${this.seed}/${name}/${i}`)), label);
      const before = this.evaluations;
      try { await fn(c, i); if (c.soft) throw c.soft; }
      catch (e) { this.caught(c.soft || e, label, c); }
      sec.cases++; sec.evaluations += this.evaluations - before;
      this.checkUnhandled(label, c);
    }
  }
  checkUnhandled(label, c) {
    if (this.unhandled.length) {
      const u = this.unhandled.splice(0);
      if (c && c.allowUnhandled) return;
      this.record(new Violation('unhandled', `unhandled promise rejection: ${show(u[0], 2)}`, c && c.last), label);
    }
  }
  caught(e, label, c) {
    if (e instanceof Violation) return this.record(e, label);
    if (e instanceof Inconclusive || (e && ENVERR.has(e.code))) { this.inconclusive.push(`${label}: ${e.message}`); return; }
    this.record(new Violation('unexpected-throw', `unexpected exception: ${e && e.stack ? String(e.stack).split('\n').slice(0, 6).join(' | ') : show(e)}`, c && c.last), label);
  }
  record(v, label) {
    if (this.violations.length > 20) return;
    this.violations.push({ key: v.key, message: v.message, case: label, witness: v.witness === undefined ? undefined : show(v.witness) });
  }
  knownFinding(key, what) { if (!this.known.some(k => k.key === key)) this.known.push({ key, what }); }
  note(sig) { this.evaluations++; this.distinct.add(typeof sig === 'string' ? hashStr(sig) + ':' + sig.length : sig); }
  stat(k, d = 1) { this.stats[k] = (this.stats[k] || 0) + d; }
  statMax(k, v) { if (!(this.stats[k] >= v)) this.stats[k] = v; }
}
export class Case extends Rng {
  constructor(ctx, rng, label) { super(1); this.a = rng.a; this.ctx = ctx; this.label = label; }
  fail(key, msg, witness = this.last) { const v = new Violation(key, msg, witness); this.soft ||= v; throw v; } // remembered even if the code under test swallows it
  ok(cond, key, msg, witness = this.last) { if (!cond) this.fail(key, typeof msg === 'function' ? msg() : msg, witness); }
  eq(actual, expected, key, witness = this.last) {
    if (!same(actual, expected)) this.fail(key, `${key}: got ${show(actual)} expected ${show(expected)}`, witness);
  }
  /** declare one evaluated input; sig decides distinctness */
  ev(input, sig) {
    this.last = input;
    const s = sig === undefined ? this.label.split('#')[0] + show(input, 5) : this.label.split('#')[0] + sig;
    this.ctx.note(s);
    const sec = this.label.split('#')[0];
    const st = this.ctx.sampleCount ||= {};
    if ((st[sec] = (st[sec] || 0) + 1) <= 2 && this.ctx.samples.length < 40) this.ctx.samples.push({ case: this.label, input: show(input, 5).slice(0, 500) });
  }
  throws(fn, key, pred) {
    let r; try { r = fn(); } catch (e) { if (typeof pred === 'function' && !pred(e)) this.fail(key, `${key}: wrong error ${show(e, 1)}`); return e; }
    this.fail(key, `${key}: expected a throw, got ${show(r)}${typeof pred === 'string' ? ' for ' + pred : ''}`);
  }
  async rejects(p, key, pred) {
    let r; try { r = await p; } catch (e) { if (typeof pred === 'function' && !pred(e)) this.fail(key, `${key}: wrong error ${show(e, 1)}`); return e; }
    this.fail(key, `${key}: expected a rejection, got ${show(r)}${typeof pred === 'string' ? ' for ' + pred : ''}`);
  }
  get tick() { return () => new Promise(r => this.ctx.realSetImmediate.call(globalThis, r)); }
  async drain(n = 3) { for (let i = 0; i < n; i++) await this.tick(); }
}
export const same = (a, b) => Object.is(a, b) || isDeepStrictEqual(a, b);
