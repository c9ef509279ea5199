import { Rng } from '../engine/rng.mjs';
// Common parts of the monitors: verdict reporting and coverage accounting.
// a monitor's own choices (what to ask) come from a generator of its own, so that recorded histories replay
export const rngOf = (m, w) => { if (!m.rngs) m.rngs = new WeakMap(); if (!m.rngs.has(w)) m.rngs.set(w, new Rng(w.seed + m.prop)); return m.rngs.get(w); };
export class Mon {
  constructor(prop) { this.prop = prop; this.evals = 0; this.keys = new Set(); this.samples = new Map(); this.extra = {}; }
  // one judgement; key = what made it distinct (null: trivial)
  ev(key, sample) {
    this.evals++;
    if (key !== null && key !== undefined) { const n = this.keys.size; this.keys.add(key); if (this.keys.size !== n && this.samples.size < 12 && sample) this.samples.set(key, sample()); }
  }
  tally(k, n = 1) { this.extra[k] = (this.extra[k] ?? 0) + n; }
  bad(w, code, detail) { w.violation(this.prop, code, detail); }
  onSegment() {}
}
export const eqMap = (a, b, skip) => { for (const [k, v] of a) { if (skip && skip.has(k)) continue; if (b.has(k) && b.get(k) !== v) return k; } return null; };
export const eqAlw = (x, y) => x.a === y.a && x.e === y.e;
export const magn = (v) => v === null || v === undefined ? 'n' : v === 0n ? '0' : v > (1n << 128n) - 1n ? 'big' : v >= (1n << 127n) ? 'huge' : v < 100_000_000n ? 'subfee' : v === 100_000_000n ? 'fee' : v <= 200_000_000n ? 'le2fee' : 'ok';
export const rel = (a, b) => a < b ? (b - a === 1n ? '-1' : '<') : a > b ? (a - b === 1n ? '+1' : '>') : '=';
