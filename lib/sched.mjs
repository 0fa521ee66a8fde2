// Virtual clock and a pool of deferred outcomes that the scheduler settles in a seeded order.
const REAL = { setTimeout, clearTimeout, setInterval, clearInterval, now: Date.now, perf: performance.now, Date };
export class VClock {
  constructor(start = 1700000000000) { this.now = start; this.timers = []; this.seq = 0; this.requests = []; this.fired = 0; }
  install() {
    const self = this;
    class T {
      constructor(cb, ms, args, every) { ms = Number(ms); if (!(ms >= 1 && ms <= 2147483647)) ms = 1; ms = Math.trunc(ms); this.cb = cb; this.ms = ms; this.args = args; this.every = every; this.at = self.now + ms; this.seq = ++self.seq; self.timers.push(this); }
      ref() { return this; } unref() { return this; } hasRef() { return true; } refresh() { this.at = self.now + this.ms; return this; } close() { clear(this); return this; }
      [Symbol.toPrimitive]() { return this.seq; }
    }
    const clear = t => { if (t == null) return; const id = typeof t === 'object' ? t : self.timers.find(x => x.seq === Number(t)); const i = self.timers.indexOf(id); if (i >= 0) self.timers.splice(i, 1); };
    globalThis.setTimeout = (cb, ms, ...args) => { if (typeof cb !== 'function') throw new TypeError('callback must be a function'); self.requests.push(ms); return new T(cb, ms, args); };
    globalThis.setInterval = (cb, ms, ...args) => new T(cb, ms, args, true);
    globalThis.clearTimeout = clear; globalThis.clearInterval = clear;
    Date.now = () => self.now;
    performance.now = () => self.now - 1600000000000;
    return this;
  }
  uninstall() { for (const k of ['setTimeout', 'clearTimeout', 'setInterval', 'clearInterval']) globalThis[k] = REAL[k]; Date.now = REAL.now; performance.now = REAL.perf; }
  get pending() { return this.timers.length; }
  next() { let b = null; for (const t of this.timers) if (!b || t.at < b.at || (t.at === b.at && t.seq < b.seq)) b = t; return b; }
  /** advance to the earliest timer and fire it; false if there is none */
  fireNext() {
    const t = this.next(); if (!t) return false;
    if (t.at > this.now) this.now = t.at;
    if (t.every) { t.at = this.now + t.ms; t.seq = ++this.seq; } else this.timers.splice(this.timers.indexOf(t), 1);
    this.fired++; t.cb(...t.args); return true;
  }
  advance(ms) { this.now += ms; }
}
export class Pool {
  constructor(c) { this.c = c; this.open = []; this.log = []; }
  /** promise that settles with {ok:value}|{err:reason} when the scheduler picks it */
  make(tag, outcome, onSettle) {
    return new Promise((res, rej) => { this.open.push({ tag, settle: () => { onSettle && onSettle(); this.log.push(tag); 'err' in outcome ? rej(outcome.err) : res(outcome.ok); } }); });
  }
  settleOne() { if (!this.open.length) return false; const i = this.c.int(0, this.open.length - 1); const [o] = this.open.splice(i, 1); o.settle(); return true; }
}
/** observe a promise without creating an unhandled rejection */
export function watch(p) { const w = { state: 'pending', n: 0 }; Promise.resolve(p).then(v => { w.state = 'ok'; w.value = v; w.n++; }, e => { w.state = 'err'; w.error = e; w.n++; }); return w; }
