// State-aware random workload: one episode drives one ledger through a long random history
// whose amounts, times, accounts and answers sit on the boundaries of its current state.
import { World, okDeposit, rej, cmcOk, cmcRefunded, cmcRefundFailed, garbage, did } from '../engine/world.mjs';
import { someText, nearSub, principalSub } from '../engine/rng.mjs';
import { acc, akey, pkey, unpkey, FEE, U128, U64, SEC, WINDOW, DRIFT, MGMT, ANON, Z32, CMC, LEDGER_ID, KNOWN } from '../engine/ledger.mjs';
import { malformed } from './raw.mjs';

const SUBS = [null, Z32, '11'.repeat(32), '00'.repeat(31) + '01', 'ff'.repeat(32), '11'.repeat(31) + '12', '01' + '00'.repeat(31)];
// memos the ledger itself writes (refund, creation, withdrawal to somebody), and plain ones
export const MEMOS = ['ff'.repeat(32), 'fe'.repeat(32), 'fd'.repeat(32), '814a00000000000000f70101', '8140', '00', '00'.repeat(32), '6d656d6f', 'f09f9982', 'ff', 'fe'.repeat(31)];
const T0 = 1_700_000_000n * SEC;
const min = (a, b) => a < b ? a : b;

export const BASE = {
  steps: [40, 160], owners: [2, 5], subs: 0.35,
  ops: { deposit: 6, transfer: 14, transfer_from: 14, approve: 14, withdraw: 6, withdraw_from: 8, create: 4, create_from: 6, retry: 8, near: 6, respond: 14, time: 12, upgrade: 1.5, raw: 1.5, spray: 0.4 },
  enc: 0.08, cat: 0.35, catEdge: 0.25, fee: 0.35, wrongFee: 0.12, memo: 0.3, longMemo: 0.03, bigAmt: 0.02, mgmt: 0.02, anon: 0.05, selfApprove: 0.01,
  edge: 0.45, expires: 0.5, expired: 0.06, expected: 0.25, expectedOk: 0.7, fault: 0.05, fail: 0.55, sibling: 0.12, ownSpender: 0.08, over: 0.25, timeEdge: 0.6, focusPair: 0.5, invalidUpgrade: 0.25, poor: 0.25,
  cycles: 0.3, obs: {},
};
const P = (o) => ({ ...BASE, ...o, ops: { ...BASE.ops, ...(o.ops ?? {}) } });
// one profile per property: what its workload leans towards
export const PROFILES = {
  mix: BASE,
  C01: P({}), C02: P({ ops: { upgrade: 2 } }), C03: P({ ops: { raw: 3 }, memo: 0.5, subs: 0.6 }), C04: P({ ops: { deposit: 10, withdraw: 10, withdraw_from: 10, create: 10, create_from: 10, respond: 26 }, fault: 0.12 }),
  C05: P({ ops: { near: 10, raw: 6 }, wrongFee: 0.25, over: 0.5, catEdge: 0.5, mgmt: 0.06, selfApprove: 0.05, longMemo: 0.08, bigAmt: 0.06, expired: 0.15 }),
  C06: P({ over: 0.12, sibling: 0.25, ownSpender: 0.2 }), C07: P({ ops: { approve: 20, transfer_from: 22, withdraw_from: 14, create_from: 12 }, sibling: 0.3, anon: 0.15, over: 0.3, ownSpender: 0.2 }),
  C08: P({ ops: { approve: 24, transfer_from: 24, withdraw_from: 12, create_from: 8, time: 8 }, over: 0.3, bigAmt: 0.05 }), C09: P({ ops: { approve: 26, transfer_from: 16, time: 26 }, expires: 0.9, timeEdge: 0.9, expired: 0.15 }),
  C10: P({ ops: { approve: 34, transfer_from: 18, time: 14 }, expected: 0.8, expires: 0.5 }), C11: P({ ops: { retry: 30, near: 16, time: 12, upgrade: 2 }, cat: 0.9, catEdge: 0.3 }),
  C12: P({ cat: 0.95, catEdge: 0.7, ops: { retry: 10 } }), C13: P({ fee: 0.7, wrongFee: 0.3, bigAmt: 0.05 }), C14: P({ over: 0.4, poor: 0.6, edge: 0.8, bigAmt: 0.05 }), C15: P({ ops: { deposit: 50 }, edge: 0.6, memo: 0.6, longMemo: 0.08 }),
  C16: P({ ops: { withdraw: 26, withdraw_from: 24, create: 2, create_from: 2, respond: 34, deposit: 10 }, fault: 0.12, fail: 0.7 }), C17: P({ ops: { withdraw: 2, withdraw_from: 2, create: 24, create_from: 24, respond: 34, deposit: 10, retry: 10 }, fault: 0.12, fail: 0.65, cat: 0.5 }),
  C18: P({ ops: { approve: 24, withdraw_from: 30, create_from: 26, respond: 30, time: 16, transfer_from: 10 }, fault: 0.12, fail: 0.9, over: 0.08, expires: 0.6, owners: [2, 3] }),
  C19: P({ ops: { upgrade: 3 } }), C20: P({ ops: { upgrade: 3 }, obs: { tip: true } }), C21: P({}), C22: P({ memo: 0.6, subs: 0.7, fee: 0.5, cat: 0.5, bigAmt: 0.04 }), C23: P({ ops: { approve: 50, time: 16, transfer_from: 10 }, expires: 0.6, owners: [3, 6], subs: 0.7, selfApprove: 0, focusPair: 0.1 }),
  C24: P({ ops: { upgrade: 10, retry: 14 }, cat: 0.6 }), C25: P({ ops: { approve: 24, time: 24 }, cat: 0.7, expires: 0.8, timeEdge: 0.8 }), C26: P({ mgmt: 0.15, selfApprove: 0.12, memo: 0.6, longMemo: 0.15, anon: 0.15, ops: { withdraw: 14, withdraw_from: 12 }, over: 0.1 }),
  C27: P({ ops: { raw: 30 }, enc: 0.5 }), C28: P({ ops: { raw: 6, near: 8 }, bigAmt: 0.1, edge: 0.8, catEdge: 0.5, over: 0.4, fault: 0.1, subs: 0.6 }), C29: P({ steps: [1, 6] }),
  C32: P({ subs: 0.7, ownSpender: 0.2, sibling: 0.25, ops: { raw: 0.3 } }), C33: P({ ops: { raw: 0, retry: 12, withdraw: 10, withdraw_from: 14, create: 8, create_from: 10, respond: 24 }, cat: 0.6, fault: 0.1, mgmt: 0.01 }), C34: P({ ops: { raw: 0.3 }, anon: 0.12, ownSpender: 0.15, mgmt: 0.04 }), C36: P({ expires: 0.5, subs: 0.5, ops: { approve: 16 } }), C35: P({ ops: { raw: 0.3, retry: 12, approve: 16, time: 14 }, cat: 0.6, catEdge: 0.4, expires: 0.7, timeEdge: 0.6 }),
};

// creation arguments: every optional setting absent or present
export function creationArgs(r, owners) {
  if (r.bool(0.4)) return null;
  const n = () => r.bool(0.3) ? r.big(r.pick([1, 20, 60, 100])) : null;
  const settings = r.bool(0.3) ? null : { controllers: r.bool(0.5) ? Array.from({ length: r.bool(0.15) ? r.pick([10, 11, 33]) : r.int(4) }, () => r.bool(0.8) ? r.pick(owners) : r.bytes(r.pick([0, 1, 10, 29]))) : null, freezing_threshold: n(), memory_allocation: n(), reserved_cycles_limit: n(), compute_allocation: n(), wasm_memory_limit: n(), wasm_memory_threshold: n(),
    log_visibility: r.bool(0.3) ? r.pick([{ controllers: null }, { public: null }, { allowed_viewers: r.bool() ? [] : [r.pick(owners), r.bytes(29)] }, { allowed_viewers: Array.from({ length: 12 }, () => r.bytes(10)) }]) : null,
    environment_variables: r.bool(0.3) ? Array.from({ length: r.bool(0.15) ? 40 : r.int(3) }, (_, i) => ({ name: 'V' + i, value: r.pick(['', 'x', 'é🙂', r.bytes(9), r.bytes(300)]) })) : null };
  const subnet_selection = r.weighted([[null, 3], [{ Filter: { subnet_type: r.bool() ? null : 'fiduciary' } }, 1], [{ Subnet: { subnet: r.bytes(29) } }, 1]]);
  return { settings, subnet_selection };
}
export class Episode {
  constructor(w, p) { this.w = w; this.p = p; this.r = w.rng; this.done = []; this.setup(); }
  setup() {
    const r = this.r, p = this.p;
    const n = r.range(...p.owners);
    this.owners = [];
    for (let i = 0; i < n; i++) {
      const o = i > 0 && r.bool(0.2) ? this.owners.at(-1) ?? null : null, k = o === null ? 0 : o.length / 2;
      const rel = o === null || o === ANON ? null : r.pick([k < 29 ? o + r.pick(['00', '01', '02', 'ff']) : null, k > 1 ? o.slice(0, -2) : null, o.slice(0, -2) + r.pick(['00', 'fe']), k < 29 ? o.padEnd(58, '0') : null]); // one that looks like the one before
      const x = rel ?? (r.bool(0.15) ? r.bytes(28) + '02' : r.bool(0.08) ? r.bytes(1) : r.bool(0.08) ? r.bytes(r.range(2, 29)) : '0000000000' + r.bytes(3) + '0101');
      if (x !== MGMT && !this.owners.includes(x)) this.owners.push(x);
    }
    if (r.bool(p.anon * 3)) this.owners.push(ANON);
    if (r.bool(0.12)) this.owners.push(r.pick(KNOWN));
    this.accts = [];
    for (const o of this.owners) { this.accts.push(acc(o)); if (r.bool(p.subs)) for (let k = r.range(1, 3); k > 0; k--) { const s = r.bool(0.15) ? principalSub(r.pick(this.owners)) : r.bool(0.15) ? r.bytes(32) : r.pick(SUBS); this.accts.push(acc(o, s)); if (r.bool(0.3)) this.accts.push(acc(o, nearSub(r, s))); } }
    // a few keep the whole action on few (owner, spender) pairs
    this.f = r.pick(this.accts); this.s = r.pick(this.accts.filter((a) => a.owner !== this.f.owner)) ?? r.pick(this.accts);
    this.cats = [];
  }
  anyAcc() {
    const r = this.r;
    if (r.bool(this.p.mgmt)) return acc(MGMT, r.bool(0.3) ? '22'.repeat(32) : null);
    if (r.bool(0.03)) return acc(r.pick(this.owners), r.bytes(32));
    const a = r.pick(this.accts);
    if (r.bool(0.1)) return acc(a.owner, a.subaccount === null ? Z32 : a.subaccount === Z32 ? null : a.subaccount);
    return a;
  }
  from() { return this.r.bool(this.p.focusPair) ? this.variant(this.f) : this.anyAcc(); }
  variant(a) { return this.r.bool(0.06) ? acc(a.owner, a.subaccount === null ? Z32 : a.subaccount === Z32 ? null : a.subaccount) : a; }
  bal(a) { const v = this.w.obs.bal.get(akey(a)); return v ?? this.w.fold.get(a); }
  live(f, s) { return this.w.fold.allowance(pkey(f, s), this.w.now); }
  amount(cap, small = FEE * 20n) {
    const r = this.r, p = this.p;
    if (r.bool(p.bigAmt)) return r.pick([U128, U128 - 1n, U128 + 1n, U128 - FEE, U128 - FEE + 1n, 1n << 127n, 1n << 130n, U64, U64 + 1n]);
    if (r.bool(p.edge)) {
      const c = [0n, 1n, FEE - 1n, FEE, FEE + 1n, 2n * FEE - 1n, 2n * FEE, 2n * FEE + 1n, 3n * FEE];
      if (cap > 0n) c.push(cap, cap, cap - 1n);
      if (cap > FEE) c.push(cap - FEE, cap - FEE, cap - FEE - 1n, cap - FEE + 1n);
      if (cap > 2n * FEE) c.push(cap - 2n * FEE, cap - 2n * FEE + 1n);
      const x = c.filter((v) => r.bool(p.over) || v + FEE <= cap);
      return x.length ? r.pick(x) : r.pick(c);
    }
    if (r.bool(p.over)) return cap + r.bigBelow(small) + 1n;
    const m = min(cap > FEE ? cap - FEE : 0n, r.bool(0.7) ? small : cap);
    return m > 0n ? r.bigBelow(m) + 1n : r.bigBelow(small);
  }
  cat(force) {
    const r = this.r, p = this.p, t = this.w.now;
    if (!force && !r.bool(p.cat)) return null;
    if (r.bool(p.catEdge)) return r.pick([t - WINDOW - DRIFT, t - WINDOW - DRIFT - 1n, t - WINDOW - DRIFT + 1n, t + DRIFT, t + DRIFT + 1n, t + DRIFT - 1n, t - WINDOW, t - WINDOW + 1n, t - WINDOW - 1n, t + 1n, t - 1n, 0n, 1n, U64, U64 - DRIFT, U64 - WINDOW - DRIFT + 1n]);
    if (this.cats.length && r.bool(0.3)) return r.pick(this.cats);
    const c = t - r.bigBelow(r.pick([2n, SEC, 3600n * SEC, WINDOW]));
    this.cats.push(c); if (this.cats.length > 6) this.cats.shift();
    return c;
  }
  fee() { const r = this.r, p = this.p; if (r.bool(p.wrongFee)) return r.pick([0n, 1n, FEE - 1n, FEE + 1n, 2n * FEE, U64, U128, U128 + 1n, 1n << 140n]); return r.bool(p.fee) ? FEE : null; }
  memo() { const r = this.r, p = this.p; if (r.bool(p.longMemo)) return r.bytes(r.pick([33, 34, 64])); return r.bool(p.memo) ? (r.bool(0.2) ? r.pick(MEMOS) : r.bytes(r.pick([0, 1, 8, 31, 32, 32]))) : null; }
  pair() { // (from, spender)
    const r = this.r, p = this.p;
    if (r.bool(p.ownSpender)) { const a = this.from(); return [a, r.bool(0.5) ? a : this.variant(acc(a.owner, a.subaccount))]; }
    if (r.bool(p.sibling)) { const a = this.from(), b = this.anyAcc(); return [a, acc(a.owner, b.subaccount)]; }
    const known = [...this.w.fold.alw.keys()];
    if (known.length && r.bool(0.6)) { const [f, s] = unpkey(r.pick(known)); return [f, s]; }
    if (r.bool(p.focusPair)) return [this.variant(this.f), this.variant(this.s)];
    return [this.anyAcc(), this.anyAcc()];
  }
  target() { const r = this.r; return r.weighted([[() => '0000000000' + r.bytes(3) + '0101', 6], [() => r.bytes(28) + '02', 0.6], [() => ANON, 0.4], [() => MGMT, 0.3], [() => LEDGER_ID, 0.3], [() => CMC, 0.3], [() => r.pick(this.owners), 1], [() => r.bytes(29), 0.3], [() => r.bytes(27) + '02', 0.2]])(); }
  creation() { return creationArgs(this.r, this.owners); }
  ready(f, need) { // sometimes make sure an account can pay
    if (this.r.bool(this.p.poor) || this.bal(f) >= need || f.owner === MGMT) return;
    this.w.call('deposit', [{ to: f, memo: null }], { caller: this.r.pick(this.owners), cycles: need - this.bal(f) + FEE + this.r.pick([0n, 1n, FEE, 50n * FEE]) });
  }
  grant(f, s, amt) { // sometimes make sure a spender may spend
    const p = this.p, r = this.r;
    if (f.owner === s.owner || f.owner === MGMT || s.owner === MGMT || r.bool(p.over) || this.live(f, s).a >= amt) return;
    this.ready(f, FEE);
    this.w.call('icrc2_approve', [{ from_subaccount: f.subaccount, spender: s, amount: r.pick([amt, amt, amt + 1n, amt + FEE, amt * 2n, amt + 3n * FEE]), expected_allowance: null, expires_at: this.expiry(true), fee: null, memo: null, created_at_time: null }], { caller: f.owner });
  }
  expiry(future) {
    const r = this.r, p = this.p, t = this.w.now;
    if (!r.bool(p.expires)) return null;
    if (!future && r.bool(p.expired)) return r.pick([t, t - 1n, 0n, 1n, t - SEC]);
    const es = [...this.w.fold.alw.values()].map((v) => v.e).filter((e) => e !== null && e > t);
    if (es.length && r.bool(0.35)) return min(U64, r.pick(es) + BigInt(r.int(3)) - (r.bool(0.3) ? 1n : 0n));
    return t + r.pick([1n, 2n, SEC, r.bigBelow(10n * SEC) + 1n, 3600n * SEC, r.bigBelow(48n * 3600n * SEC) + 1n, U64 - t]);
  }
  faults() { const r = this.r; if (!r.bool(this.p.fault)) return null; return r.bool(0.6) ? { perform: r.pick([1, 2, 3]) } : { liquid: r.pick([0n, 1n]) }; }
  // ---- the calls ----
  make(kind) {
    const r = this.r;
    switch (kind) {
      case 'deposit': { const to = this.r.bool(0.6) ? this.from() : this.anyAcc(); const big = r.bool(this.p.bigAmt) ? r.pick([1n << 100n, 1n << 126n, U128 / 2n]) : null; return { method: 'deposit', args: [{ to, memo: this.memo() }], caller: r.pick(this.owners), cycles: big ?? (r.bool(this.p.edge * 0.5) ? r.pick([0n, 1n, FEE - 1n, FEE, FEE + 1n, 2n * FEE, 2n * FEE + 1n, 3n * FEE]) : FEE + 1n + r.bigBelow(100n * FEE)) }; }
      case 'transfer': { const f = this.from(); this.ready(f, 3n * FEE); const to = r.bool(0.08) ? this.variant(f) : this.anyAcc(); return { method: 'icrc1_transfer', caller: f.owner, args: [{ from_subaccount: f.subaccount, to, amount: this.amount(this.bal(f)), fee: this.fee(), memo: this.memo(), created_at_time: this.cat() }] }; }
      case 'approve': { let [f, s] = this.pair(); if (f.owner === s.owner && !r.bool(this.p.selfApprove)) s = r.pick(this.accts.filter((a) => a.owner !== f.owner)) ?? s; this.ready(f, FEE); const cur = this.live(f, s).a;
        const exp = r.bool(this.p.expected) ? (r.bool(this.p.expectedOk) ? cur : r.pick([0n, cur + 1n, cur > 0n ? cur - 1n : 1n, (this.w.fold.alw.get(pkey(f, s)) ?? { a: 7n }).a, U128, U128 + 1n, cur + (1n << 128n), cur + (1n << 64n), 1n << 200n])) : null;
        const amount = r.weighted([[() => 0n, 2], [() => this.amount(this.bal(f)), 4], [() => cur, 0.5], [() => r.bigBelow(20n * FEE) + FEE, 4], [() => r.bool(this.p.bigAmt * 5) ? r.pick([U128, U128 + 1n, 1n << 200n]) : 5n * FEE, 1]])();
        return { method: 'icrc2_approve', caller: f.owner, args: [{ from_subaccount: f.subaccount, spender: s, amount, expected_allowance: exp, expires_at: this.expiry(false), fee: this.fee(), memo: this.memo(), created_at_time: this.cat() }] }; }
      case 'transfer_from': { const [f, s] = this.pair(); const a = this.spendable(f, s); const to = r.bool(0.1) ? r.pick([f, s]) : this.anyAcc(); return { method: 'icrc2_transfer_from', caller: s.owner, args: [{ spender_subaccount: s.subaccount, from: f, to, amount: a, fee: this.fee(), memo: this.memo(), created_at_time: this.cat() }] }; }
      case 'withdraw': { const f = this.from(); this.ready(f, 5n * FEE); return { method: 'withdraw', caller: f.owner, faults: this.faults(), args: [{ from_subaccount: f.subaccount, to: this.target(), amount: this.amount(this.bal(f)), created_at_time: this.cat() }] }; }
      case 'withdraw_from': { const [f, s] = this.pair(); return { method: 'withdraw_from', caller: s.owner, faults: this.faults(), args: [{ spender_subaccount: s.subaccount, from: f, to: this.target(), amount: this.spendable(f, s), created_at_time: this.cat() }] }; }
      case 'create': { const f = this.from(); this.ready(f, 5n * FEE); return { method: 'create_canister', caller: f.owner, faults: this.faults(), args: [{ from_subaccount: f.subaccount, amount: this.amount(this.bal(f)), created_at_time: this.cat(), creation_args: this.creation() }] }; }
      case 'create_from': { const [f, s] = this.pair(); return { method: 'create_canister_from', caller: s.owner, faults: this.faults(), args: [{ spender_subaccount: s.subaccount, from: f, amount: this.spendable(f, s), created_at_time: this.cat(), creation_args: this.creation() }] }; }
    }
  }
  spendable(f, s) {
    const r = this.r;
    this.ready(f, 4n * FEE);
    let cap = this.bal(f);
    if (f.owner !== s.owner || akey(f) !== akey(s)) {
      if (!r.bool(this.p.over * 0.5)) this.grant(f, s, r.pick([2n * FEE, 4n * FEE, 10n * FEE, this.bal(f)]));
      const l = this.live(f, s).a; if (l > 0n) cap = min(cap, l);
    }
    return this.amount(cap);
  }
  issue(c) {
    const w = this.w;
    if (!c.cycles && c.method !== 'deposit' && this.r.bool(0.04)) c.cycles = this.r.pick([1n, FEE, FEE + 1n, 7n * FEE]); // only deposits take cycles
    if (c.raw) w.call(c.method, null, { caller: c.caller, cycles: c.cycles ?? 0n, raw: c.raw, what: c.what });
    else { this.done.push(c); if (this.done.length > 60) this.done.splice(this.r.int(30), 1); w.call(c.method, c.args, { caller: c.caller, cycles: c.cycles ?? 0n, faults: c.faults ?? null, enc: this.r.bool(this.p.enc) ? 1 + this.r.int(7) : 0 }); }
  }
  near(c) {
    const r = this.r, a = { ...c.args[0] }, x = { ...c, args: [a], faults: null };
    const keys = Object.keys(a); const k = r.pick(keys);
    const flip = (s) => s === null ? Z32 : s === Z32 ? null : r.bool() ? null : s;
    if (k.endsWith('subaccount')) a[k] = flip(a[k]);
    else if (k === 'to' && typeof a.to === 'string') a.to = this.target();
    else if (k === 'to' || k === 'from' || k === 'spender') a[k] = r.bool(0.5) ? acc(a[k].owner, flip(a[k].subaccount)) : this.anyAcc();
    else if (k === 'amount') a.amount = r.bool(0.2) ? a.amount ^ (1n << BigInt(r.int(128))) : r.bool() ? a.amount + 1n : a.amount > 0n ? a.amount - 1n : 1n;
    else if (k === 'fee') a.fee = a.fee === null ? FEE : null;
    else if (k === 'memo') a.memo = a.memo === null ? '' : a.memo === '' ? r.pick([null, '00']) : r.pick([() => null, () => a.memo.slice(2), () => a.memo + '00', () => a.memo.slice(0, -2), () => (a.memo[0] === '0' ? '1' : '0') + a.memo.slice(1), () => a.memo.slice(0, -1) + (a.memo.at(-1) === '0' ? '1' : '0')])();
    else if (k === 'created_at_time') a.created_at_time = a.created_at_time === null ? this.w.now : r.bool() ? min(U64, a.created_at_time + r.pick([1n, 1n, 2n, 1000n, 1_000_000n, SEC])) : null;
    else if (k === 'expires_at') a.expires_at = a.expires_at === null ? this.w.now + SEC : r.bool() ? null : min(U64, a.expires_at + r.pick([1n, 1n, 1000n, SEC]));
    else if (k === 'expected_allowance') a.expected_allowance = a.expected_allowance === null ? (r.bool() ? 0n : this.live(acc(c.caller, a.from_subaccount), a.spender).a) : null;
    else if (k === 'creation_args') a.creation_args = this.creation();
    if (c.method === 'deposit' && r.bool(0.3)) x.cycles = c.cycles + 1n;
    if (r.bool(0.1)) x.caller = r.pick(this.owners);
    return x;
  }
  answer({ op, call }) {
    const r = this.r, a = call.cycles;
    const reject = () => rej(r.pick([1, 2, 3, 4, 5, 6, 7]), someText(r), a);
    if (!r.bool(this.p.fail)) return call.method === 'deposit_cycles' ? okDeposit() : cmcOk('0000000000' + r.bytes(3) + '0101');
    if (call.method === 'deposit_cycles') return r.bool(0.9) ? reject() : garbage(a, r.pick(['00', '', '4449444c', '4449444c0001']));
    return r.weighted([[() => reject(), 4], [() => cmcRefunded(min(a, r.pick([a, a, a, a > 10n ? a - 10n : a, a / 2n, FEE, FEE + 1n, FEE - 1n, 2n * FEE, 2n * FEE + 1n, 3n * FEE, 0n, 1n])), someText(r)), 6], [() => cmcRefundFailed(someText(r), someText(r)), 1], [() => garbage(a, r.pick(['00', '', '4449444c0001'])), 1]])();
  }
  time() {
    const r = this.r, w = this.w, t = w.now, c = [];
    if (r.bool(this.p.timeEdge)) {
      for (const v of w.fold.alw.values()) if (v.e !== null && v.e < t + 400n * 24n * 3600n * SEC) c.push(v.e - 1n, v.e, v.e + 1n);
      for (let i = w.chain.length - 1, k = 0; i >= 0 && k < 40; i--) { const x = w.chain[i].cat; if (x !== null && x !== undefined) { k++; c.push(x + WINDOW + DRIFT - 1n, x + WINDOW + DRIFT, x + WINDOW + DRIFT + 1n, x + WINDOW, x - DRIFT, x - DRIFT - 1n); } }
    }
    const ok = c.filter((x) => x > t);
    if (ok.length) { ok.sort((a, b) => a < b ? -1 : 1); return w.advanceTo(r.bool(0.7) ? ok[r.int(Math.min(3, ok.length))] : r.pick(ok)); }
    w.advance(r.pick([1n, 1n, SEC, r.bigBelow(60n * SEC) + 1n, 3600n * SEC, 6n * 3600n * SEC, WINDOW, WINDOW + DRIFT, WINDOW + DRIFT + 1n]));
  }
  upgrade() {
    const r = this.r, w = this.w;
    if (w.inflight.size) { if (r.bool(0.5)) return; w.drain((x) => this.answer(x)); }
    const invalid = r.bool(this.p.invalidUpgrade);
    if (invalid) return w.upgrade({ Init: { max_blocks_per_request: 5n, index_id: r.bool() ? null : '0102', initial_balances: r.bool() ? null : [{ 0: r.pick(this.accts), 1: 5n * FEE }] } }, { expectTrap: true });
    w.upgrade(r.weighted([[() => undefined, 2], [() => ({ Upgrade: null }), 1], [() => ({ Upgrade: { max_blocks_per_request: r.weighted([[null, 3], [r.pick([1n, 2n, 10n, 64n, 1000n, U64]), 1.5]]), change_index_id: r.weighted([[null, 2], [{ Unset: null }, 1], [{ SetTo: r.pick(this.owners) }, 2]]) } }), 4]])());
  }
  spray() { // many approvals expiring together, or many transactions
    const r = this.r, w = this.w, f = this.f; if (f.owner === MGMT) return;
    const n = r.pick([12, 60, 130]); this.w.call('deposit', [{ to: f, memo: null }], { caller: f.owner, cycles: BigInt(n + 20) * FEE * 2n });
    const e = w.now + r.pick([5n * SEC, 3600n * SEC]);
    const alw = r.bool(0.7);
    const list = [];
    for (let i = 0; i < n; i++) {
      const s = acc('0000000000' + (i + 256).toString(16).padStart(6, '0') + '0101', r.bool(0.2) ? SUBS[2] : null);
      if (i < 4 && alw) w.watchPair(f, s);
      if (alw) list.push({ method: 'icrc2_approve', args: [{ from_subaccount: f.subaccount, spender: s, amount: FEE * 3n + BigInt(i), expected_allowance: null, expires_at: r.bool(0.9) ? e + BigInt(i % 3) : null, fee: null, memo: null, created_at_time: null }], caller: f.owner });
      else list.push({ method: 'icrc1_transfer', args: [{ from_subaccount: f.subaccount, to: r.pick(this.accts), amount: BigInt(i), fee: null, memo: null, created_at_time: w.now - BigInt(i) }], caller: f.owner });
    }
    w.bulk(list);
  }
  step() {
    const r = this.r, w = this.w, ops = { ...this.p.ops };
    if (!w.inflight.size) ops.respond = 0; else if (w.inflight.size > 4) ops.respond *= 4;
    if (!this.done.length) { ops.retry = 0; ops.near = 0; }
    const k = r.weighted(Object.entries(ops));
    if (k === 'respond') { const ids = [...w.inflight.keys()], id = r.pick(ids); return w.respond(id, this.answer(w.inflight.get(id))); }
    if (k === 'time') return this.time();
    if (k === 'upgrade') return this.upgrade();
    if (k === 'spray') return this.spray();
    if (k === 'retry') return this.issue(r.pick(this.done));
    if (k === 'near') return this.issue(this.near(r.pick(this.done)));
    if (k === 'raw') return this.issue(malformed(this));
    this.issue(this.make(k));
  }
}

export function initArgs(r, p) {
  const o = () => '0000000000' + r.bytes(3) + '0101';
  let init = null;
  if (r.bool(0.35)) { init = []; const n = r.pick([0, 1, 2, 3, 5]); const as = Array.from({ length: 3 }, () => acc(o(), r.pick(SUBS))); for (let i = 0; i < n; i++) init.push({ 0: r.pick(as), 1: r.pick([0n, 1n, FEE, 100n * FEE, r.big(70)]) }); }
  return { max_blocks_per_request: r.weighted([[100n, 5], [1n, 1], [2n, 0.7], [7n, 1], [1000n, 1], [U64, 0.7], [U64 - 1n, 0.3]]), index_id: r.bool(0.3) ? o() : null, initial_balances: init };
}
export function randomEpisode(mk, r, profile) {
  const p = PROFILES[profile] ?? BASE;
  const init = initArgs(r, p);
  const backing = (init.initial_balances ?? []).reduce((x, e) => x + e[1], 0n);
  const w = mk({ seed: 'w' + r.bytes(6), init, time: T0 + r.big(62 - 4) % (1n << 60n), ledgerCycles: backing + r.bigBelow(1000n) * FEE + 50n * FEE, obs: p.obs });
  if (!w.install()) { for (const m of w.monitors) if (m.onFailedInstall) m.onFailedInstall(w); return w; }
  const e = new Episode(w, p);
  for (const b of init.initial_balances ?? []) e.accts.push(b[0]);
  for (let n = w.rng.range(...p.steps); n > 0; n--) e.step();
  w.drain((x) => e.answer(x));
  w.end();
  return w;
}
