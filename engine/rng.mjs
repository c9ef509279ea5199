// deterministic RNG (sfc32) seeded from a string
export class Rng {
  constructor(seed) {
    let h = 2166136261 >>> 0; const s = String(seed);
    const mix = () => { for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 16777619); } h ^= h >>> 13; h = Math.imul(h, 0x5bd1e995); h ^= h >>> 15; return h >>> 0; };
    this.a = mix(); this.b = mix(); this.c = mix(); this.d = 1; for (let i = 0; i < 15; i++) this.u32();
  }
  u32() { const t = (this.a + this.b + this.d) | 0; this.d = (this.d + 1) | 0; this.a = this.b ^ (this.b >>> 9); this.b = (this.c + (this.c << 3)) | 0; this.c = (this.c << 21) | (this.c >>> 11); this.c = (this.c + t) | 0; return t >>> 0; }
  f() { return this.u32() / 4294967296; }
  int(n) { return Math.floor(this.f() * n); }            // 0..n-1
  range(a, b) { return a + this.int(b - a + 1); }
  bool(p = 0.5) { return this.f() < p; }
  pick(a) { return a[this.int(a.length)]; }
  weighted(pairs) { let t = 0; for (const [, w] of pairs) t += w; let x = this.f() * t; for (const [v, w] of pairs) { x -= w; if (x < 0) return v; } return pairs[pairs.length - 1][0]; }
  big(bits) { let r = 0n; for (let i = 0; i < bits; i += 32) r = (r << 32n) | BigInt(this.u32()); return r & ((1n << BigInt(bits)) - 1n); }
  bigBelow(n) { if (n <= 0n) return 0n; return this.big(n.toString(2).length + 32) % n; }
  bytes(n) { let s = ''; for (let i = 0; i < n; i++) s += (this.u32() & 255).toString(16).padStart(2, '0'); return s; }
  shuffle(a) { for (let i = a.length - 1; i > 0; i--) { const j = this.int(i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; }
}

// A message from somebody else: empty, ordinary, long, characters of one to four bytes at every alignment.
export const someText = (r) => r.weighted([[() => r.pick(['no', '', 'out of cycles', 'Insufficient cycles', 'é✓', '\0', '\n"quoted"\\', 'null']), 4], [() => 'x'.repeat(r.int(4)) + r.pick(['ü', '✓', '🙂', '\u0301', '\u202e', 'x']).repeat(r.pick([1, 7, 20, 64, 130, 300, 1100, 5000])) + 'y'.repeat(r.int(4)), 2], [() => 'z'.repeat(r.pick([31, 32, 33, 127, 128, 255, 256, 257, 1000, 1024, 4096, 10000])), 1]])();

// A subaccount that looks like the one given (null: the default): one bit away, shifted, reversed, or derived from a principal.
const inv = (x, i, b) => x.slice(0, 2 * i) + (parseInt(x.slice(2 * i, 2 * i + 2), 16) ^ b).toString(16).padStart(2, '0') + x.slice(2 * i + 2);
export const nearSub = (r, s, i = r.int(32)) => { const x = s ?? '00'.repeat(32); return r.weighted([[() => inv(x, i, 1 << r.int(8)), 8], [() => inv(x, i, r.range(1, 255)), 2], [() => x.slice(2) + x.slice(0, 2), 1], [() => '00' + x.slice(0, 62), 1], [() => x.match(/../g).reverse().join(''), 1]])(); };
export const principalSub = (p) => (p.length / 2).toString(16).padStart(2, '0') + p.padEnd(62, '0');
