// Seeded PRNG (splitmix/xorshift32 pair) and generic generators.
export function hashStr(s) { let h = 2166136261 >>> 0; for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 16777619) >>> 0; } return h >>> 0; }
export class Rng {
  constructor(seed) { this.a = (seed >>> 0) || 0x9e3779b9; for (let i = 0; i < 4; i++) this.u32(); }
  u32() { // mulberry32
    this.a = (this.a + 0x6D2B79F5) >>> 0; let t = this.a;
    t = Math.imul(t ^ (t >>> 15), t | 1); t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return (t ^ (t >>> 14)) >>> 0;
  }
  float() { return this.u32() / 4294967296; }
  int(lo, hi) { return lo + Math.floor(this.float() * (hi - lo + 1)); }
  bool(p = 0.5) { return this.float() < p; }
  pick(a) { return a[this.int(0, a.length - 1)]; }
  picks(a, n) { return Array.from({ length: n }, () => this.pick(a)); }
  shuffle(a) { a = a.slice(); for (let i = a.length - 1; i > 0; i--) { const j = this.int(0, i); [a[i], a[j]] = [a[j], a[i]]; } return a; }
  subset(a, p = 0.5) { return a.filter(() => this.bool(p)); }
  arr(lo, hi, f) { const n = this.int(lo, hi); return Array.from({ length: n }, (_, i) => f(i)); }
  weighted(pairs) { let t = 0; for (const [w] of pairs) t += w; let x = this.float() * t; for (const [w, v] of pairs) { if ((x -= w) < 0) return v; } return pairs[pairs.length - 1][1]; }
  str(lo, hi, alphabet) { const al = typeof alphabet === 'string' ? Array.from(alphabet) : alphabet; let s = ''; const n = this.int(lo, hi); for (let i = 0; i < n; i++) s += this.pick(al); return s; }
}
