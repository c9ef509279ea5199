// Directed histories: small alphabets around one mechanism, driven to its boundaries.
// Each scenario is a family; the variant number and the generator choose the member.
import { okDeposit, rej, cmcOk, cmcRefunded, cmcRefundFailed, garbage } from '../engine/world.mjs';
import { someText, nearSub, principalSub } from '../engine/rng.mjs';
import { acc, akey, pkey, FEE, U128, U64, SEC, WINDOW, DRIFT, MGMT, ANON, Z32, LEDGER_ID, CMC } from '../engine/ledger.mjs';
import { companions } from './companions.mjs';
import { work, memory } from './work.mjs';
import { Episode, PROFILES, initArgs } from './random.mjs';

const T0 = 1_700_000_000n * SEC;
const A = '00000000000000a10101', B = '00000000000000b20101', C = '00000000000000c30101', TARGET = '00000000000000f70101';
const S1 = '11'.repeat(32);

export class D {
  constructor(mk, r, o = {}) {
    this.r = r;
    this.w = mk({ seed: 'd' + r.bytes(6), init: o.init ?? { max_blocks_per_request: o.max ?? 100n, index_id: null, initial_balances: o.balances ?? null }, time: o.time ?? T0 + r.big(50), ledgerCycles: o.cycles ?? 1000n * FEE, released: o.released, obs: { pairs: o.pairs ?? 12, ...(o.obs ?? {}) } });
    this.ok = this.w.install();
  }
  get now() { return this.w.now; }
  dep(to, amt, memo = null, caller = B) { return this.w.call('deposit', [{ to, memo }], { caller, cycles: amt + FEE }); }
  xfer(f, to, amount, o = {}) { return this.w.call('icrc1_transfer', [{ from_subaccount: f.subaccount, to, amount, fee: o.fee ?? null, memo: o.memo ?? null, created_at_time: o.cat ?? null }], { caller: f.owner }); }
  appr(f, s, amount, o = {}) { return this.w.call('icrc2_approve', [{ from_subaccount: f.subaccount, spender: s, amount, expected_allowance: o.expect ?? null, expires_at: o.exp ?? null, fee: o.fee ?? null, memo: o.memo ?? null, created_at_time: o.cat ?? null }], { caller: f.owner }); }
  xfrom(s, f, to, amount, o = {}) { return this.w.call('icrc2_transfer_from', [{ spender_subaccount: s.subaccount, from: f, to, amount, fee: o.fee ?? null, memo: o.memo ?? null, created_at_time: o.cat ?? null }], { caller: s.owner }); }
  wd(f, amount, o = {}) { return this.w.call('withdraw', [{ from_subaccount: f.subaccount, to: o.to ?? TARGET, amount, created_at_time: o.cat ?? null }], { caller: f.owner, faults: o.faults ?? null }); }
  wdf(s, f, amount, o = {}) { return this.w.call('withdraw_from', [{ spender_subaccount: s.subaccount, from: f, to: o.to ?? TARGET, amount, created_at_time: o.cat ?? null }], { caller: s.owner, faults: o.faults ?? null }); }
  cc(f, amount, o = {}) { return this.w.call('create_canister', [{ from_subaccount: f.subaccount, amount, created_at_time: o.cat ?? null, creation_args: o.args ?? null }], { caller: f.owner, faults: o.faults ?? null }); }
  ccf(s, f, amount, o = {}) { return this.w.call('create_canister_from', [{ spender_subaccount: s.subaccount, from: f, amount, created_at_time: o.cat ?? null, creation_args: o.args ?? null }], { caller: s.owner, faults: o.faults ?? null }); }
  calls() { return [...this.w.inflight.keys()]; }
  ans(id, kind, x) {
    const c = this.w.inflight.get(id).call, a = c.cycles, mg = c.method === 'deposit_cycles';
    const v = x ?? a;
    switch (kind) {
      case 'ok': return mg ? okDeposit() : cmcOk('0000000000' + this.r.bytes(3) + '0101');
      case 'refunded': return mg ? rej(4, someText(this.r), a) : cmcRefunded(v < a ? v : a, someText(this.r));
      case 'refundfailed': return mg ? rej(5, 'no', a) : cmcRefundFailed();
      case 'garbage': return garbage(a);
      default: return rej(Number(kind.slice(3)) || 4, someText(this.r), a);
    }
  }
  resp(id, kind, x) { return this.w.respond(id, this.ans(id, kind, x)); }
  end() { for (const id of this.calls()) this.resp(id, 'ok'); this.w.end(); return this.w; }
}
const KINDS = ['rej1', 'rej2', 'rej3', 'rej4', 'rej5', 'rej6', 'refunded', 'refunded', 'refunded', 'refundfailed', 'garbage', 'ok'];

export const SCENARIOS = [];
const S = (name, variants, run) => SCENARIOS.push({ name, variants, run });

// one owner, one spender, all orders of granting, spending, replacing, expiring and cleaning up
S('approval-life', 24, (mk, r) => {
  const d = new D(mk, r), f = acc(A, r.pick([null, Z32, S1])), s = acc(B, r.pick([null, S1]));
  d.dep(f, 400n * FEE); d.dep(acc(C), 100n * FEE);
  const t = d.now, e1 = t + 10n * SEC, e2 = t + 20n * SEC, amt = 10n * FEE;
  const times = [e1 - 1n, e1, e1 + 1n, e2 - 1n, e2, e2 + 1n];
  const acts = [
    () => d.appr(f, s, amt, { exp: e1 }), () => d.appr(f, s, amt, { exp: e2 }), () => d.appr(f, s, amt), () => d.appr(f, s, 0n, { exp: r.bool() ? e2 : null }), () => d.appr(f, s, amt, { exp: r.pick([e1, e2, null]), expect: d.w.fold.allowance(pkey(f, s), d.now).a }),
    () => d.appr(f, s, amt, { expect: r.pick([amt, 0n, amt - 2n * FEE, 1n << 128n, amt + (1n << 128n), 1n << 200n]) }),
    () => d.xfrom(s, f, acc(C), FEE), () => { const a = d.w.fold.allowance(pkey(f, s), d.now).a; return d.xfrom(s, f, acc(C), a > FEE ? a - FEE : FEE); }, () => { const a = d.w.fold.allowance(pkey(f, s), d.now).a; return d.xfrom(s, f, acc(C), a > FEE ? a - FEE + 1n : amt); },
    () => d.wdf(s, f, FEE), () => { for (const id of d.calls()) d.resp(id, r.pick(['rej4', 'ok'])); },
    () => { const x = times.find((y) => y > d.now); if (x) d.w.advanceTo(x); }, () => { const x = times.find((y) => y > d.now); if (x) d.w.advanceTo(x); },
    () => d.xfer(acc(C), acc(B), 1n), () => { if (!d.w.inflight.size && r.bool(0.3)) d.w.upgrade(); },
    () => d.appr(f, acc(C), amt, { exp: r.pick([e1, e2]) }),
  ];
  for (let i = 0; i < 14; i++) r.pick(acts)();
  for (const x of times) { if (x > d.now) { d.w.advanceTo(x); if (r.bool(0.5)) d.xfrom(s, f, acc(C), FEE); if (r.bool(0.4)) d.xfer(acc(C), acc(B), 1n); if (r.bool(0.3)) d.appr(f, s, amt, { expect: r.pick([0n, 0n, 0n, amt, U128, 1n << 128n]), exp: r.pick([null, e2 + 50n]) }); } }
  return d.end();
});

// an asynchronous operation in flight while its approval changes
S('inflight-approval', 40, (mk, r, v) => {
  const d = new D(mk, r), f = acc(A, r.pick([null, S1])), s = acc(B, r.pick([null, S1]));
  d.dep(f, 400n * FEE); d.dep(acc(C), 50n * FEE);
  const t = d.now, e1 = t + 10n * SEC, e2 = t + 20n * SEC;
  const amount = r.pick([FEE, 2n * FEE, 2n * FEE + 1n, 3n * FEE, 5n * FEE, 5n * FEE]);
  const grant = r.pick([amount + FEE, amount + FEE, amount + 2n * FEE, 20n * FEE]);
  d.appr(f, s, grant, { exp: r.pick([null, e1, e1, e2]) });
  const n = r.weighted([[1, 3], [2, 1]]);
  for (let i = 0; i < n; i++) (r.bool(v % 2 ? 0.7 : 0.3) ? d.wdf(s, f, amount, { cat: r.bool(0.3) ? d.now : null, faults: r.bool(0.06) ? { perform: 2 } : null }) : d.ccf(s, f, amount, { cat: r.bool(0.3) ? d.now : null }));
  const times = [e1 - 1n, e1, e1 + 1n, e2 - 1n, e2, e2 + 1n];
  const acts = [() => d.appr(f, s, r.pick([0n, FEE, 7n * FEE, U128, U128 - r.bigBelow(6n * FEE), U128]), { exp: r.pick([null, null, e1, e2].filter((x) => x === null || x > d.now)) }), () => d.appr(f, s, 0n), () => d.appr(f, s, 4n * FEE, { exp: e2 > d.now ? e2 : null }), () => d.xfrom(s, f, acc(C), FEE), () => { const x = times.find((y) => y > d.now); if (x) d.w.advanceTo(x); }, () => { const x = times.find((y) => y > d.now); if (x) d.w.advanceTo(x); }, () => d.xfer(acc(C), acc(B), 1n), () => d.wd(f, FEE), () => { const b = d.w.obs.bal.get(akey(f)); if (b > 2n * FEE) d.xfer(f, acc(C), b - FEE); }];
  for (let k = r.int(5); k > 0; k--) r.pick(acts)();
  const ids = r.shuffle(d.calls());
  // half of the answers come at one of the instants around the expirations
  if (r.bool()) { const x = r.pick(times); if (x > d.now) d.w.advanceTo(x); if (r.bool(0.3)) r.pick(acts)(); }
  for (const id of ids) { d.resp(id, r.pick(KINDS), r.pick([amount, amount, amount - 1n, FEE, FEE + 1n, 2n * FEE, 2n * FEE + 1n, 0n])); if (r.bool(0.4)) r.pick(acts)(); }
  for (const x of times) if (x > d.now && r.bool(0.6)) { d.w.advanceTo(x); if (r.bool(0.5)) d.xfrom(s, f, acc(C), FEE); if (r.bool(0.5)) d.xfer(acc(C), acc(B), 1n); }
  return d.end();
});

// an approval of nearly everything, given before or while requests under it are on their way
S('nearly-unlimited', 8, (mk, r, v) => {
  const d = new D(mk, r), f = acc(A, r.pick([null, S1])), s = acc(B, r.pick([null, S1])), a = 10n * FEE, e = d.now + 100n * SEC;
  d.dep(f, 400n * FEE); d.dep(acc(C), 50n * FEE);
  const vast = () => r.pick([U128, U128 - 1n, U128 - 7n * FEE, U128 - 8n * FEE + 1n, U128 - 8n * FEE, U128 - 8n * FEE - 1n, U128 - 20n * FEE]), exp = () => r.pick([null, null, e]);
  if (v & 4) d.appr(f, s, vast(), { exp: exp() }); else d.appr(f, s, 60n * FEE, { exp: exp() });
  for (let i = 0; i < 3; i++) (v & 1) ^ (i === 2) ? d.wdf(s, f, a) : d.ccf(s, f, a);
  if (v & 2) d.xfrom(s, f, acc(C), FEE);
  const ids = r.shuffle(d.calls()); d.appr(f, s, vast(), { exp: exp() });
  for (const id of ids) { d.resp(id, r.pick(['rej4', 'rej5', 'refunded', 'garbage']), r.pick([a, a, a - 1n, 3n * FEE])); if (r.bool(0.4)) d.xfrom(s, f, acc(C), FEE); if (r.bool(0.3)) d.appr(f, s, vast(), { exp: exp() }); }
  d.w.advanceTo(e + 1n); d.xfrom(s, f, acc(C), FEE); d.xfer(acc(C), acc(B), 1n);
  return d.end();
});

// approvals that end at the same moment: some used up, revoked or prolonged before, and given anew
S('same-expiry', 12, (mk, r, v) => {
  const d = new D(mk, r), payers = [acc(A), acc(A, S1), acc(C)], spenders = [acc(B), acc(B, S1), acc(C, S1), acc(A, Z32)], e = d.now + BigInt(r.pick([5, 100])) * SEC;
  for (const p of payers) d.dep(p, 300n * FEE);
  const pairs = r.shuffle(payers.flatMap((f) => spenders.map((s) => [f, s]))).slice(0, r.range(3, 9)), amt = () => BigInt(r.range(2, 6)) * FEE, is = new Map();
  for (const q of pairs) { const x = amt(); is.set(q, x); d.appr(q[0], q[1], x, { exp: e }); }
  for (const q of r.shuffle([...pairs]).slice(0, r.range(1, pairs.length - 1))) {
    const [f, s] = q, x = is.get(q), how = v < 4 ? v : r.int(6);
    if (how === 0) d.xfrom(s, f, r.pick([s, acc(B), acc(C)]), x - FEE);
    else if (how === 1) d.wdf(s, f, x - FEE);
    else if (how === 2) d.ccf(s, f, x - FEE);
    else if (how === 3) d.appr(f, s, 0n, { exp: r.pick([null, e]) });
    else if (how === 4) d.appr(f, s, amt(), { exp: r.pick([null, e + 1n, e + 50n * SEC, e - 1n]) });
    else d.xfrom(s, f, acc(C), FEE);
    for (const id of d.calls()) if (r.bool(0.7)) d.resp(id, r.pick(['ok', 'ok', 'rej4', 'garbage']), FEE);
    if (r.bool(0.7)) d.appr(f, s, amt(), { exp: r.pick([null, null, e + 30n * SEC, e, e - 1n]) });
  }
  if (v & 1) { for (const id of d.calls()) d.resp(id, 'ok'); d.w.upgrade(); }
  for (const t of [e - 1n, e, e + 1n, e + 31n * SEC]) { if (t <= d.now) continue; d.w.advanceTo(t); for (const id of d.calls()) if (r.bool(0.5)) d.resp(id, r.pick(['ok', 'rej4']), FEE); for (const [f, s] of r.shuffle([...pairs]).slice(0, 3)) d.xfrom(s, f, acc(B), 1n); d.dep(acc(B), FEE); }
  return d.end();
});

// spending from one's own account, and from a sibling account of the same owner
S('own-spender', 6, (mk, r, v) => {
  const d = new D(mk, r), f = acc(A), own = v % 2 ? acc(A, Z32) : acc(A), sib = acc(A, S1);
  d.dep(f, 100n * FEE); d.dep(sib, 50n * FEE);
  for (let i = 0; i < 8; i++) r.pick([() => d.xfrom(own, f, acc(C), FEE), () => d.xfrom(sib, f, acc(C), FEE), () => d.wdf(own, f, r.pick([2n, 5n]) * FEE), () => d.wdf(sib, f, 2n * FEE), () => d.ccf(own, f, 5n * FEE), () => d.ccf(sib, f, 5n * FEE), () => d.xfer(f, sib, 3n * FEE), () => d.appr(f, sib, 3n * FEE), () => d.appr(f, acc(B), 5n * FEE), () => { for (const id of d.calls()) d.resp(id, r.pick(KINDS), r.pick([5n * FEE, 3n * FEE, FEE])); }])();
  for (const id of d.calls()) d.resp(id, r.pick(['rej4', 'refunded', 'ok']));
  return d.end();
});

// more approvals than one cleanup removes, expiring at once
const mass = (n, o) => Array.from({ length: n }, (_, i) => ({ method: 'icrc2_approve', caller: o.f.owner, args: [{ from_subaccount: o.f.subaccount, spender: acc('0000000000' + (i + 4096).toString(16).padStart(6, '0') + '0101', o.sub && i % 3 === 0 ? S1 : null), amount: o.amt ?? 3n * FEE + BigInt(i), expected_allowance: null, expires_at: o.exp ? o.exp(i) : null, fee: null, memo: null, created_at_time: null }] }));
S('mass-expiry', 12, (mk, r, v) => {
  const n = [99, 100, 101, 150, 199, 200, 201, 205, 250, 260, 301, 320][v % 12]; const d = new D(mk, r, { pairs: 30 });
  const f = acc(A, r.pick([null, S1])), s = acc(B);
  d.dep(f, 2000n * FEE); d.dep(acc(C), 100n * FEE);
  const e = d.now + 10n * SEC; for (let i = 0; i < 20; i++) d.w.watchPair(f, acc('0000000000' + (i * 17 + 4096).toString(16).padStart(6, '0') + '0101', null));
  d.w.bulk(mass(n, { f, exp: (i) => i % 2 ? e : e - BigInt(i % 5) }));
  const last = r.bool(); d.appr(f, s, 30n * FEE, { exp: last ? e + 5n : e - 20n }); d.appr(f, acc(C), 30n * FEE, { exp: e + 60n * SEC });
  d.appr(f, acc(C, S1), 9n * FEE);
  const kind = r.int(3); if (kind === 0) d.wdf(s, f, 5n * FEE); else if (kind === 1) d.ccf(s, f, 5n * FEE);
  d.wdf(acc(C), f, 5n * FEE); if (r.bool()) d.wd(f, 5n * FEE);
  d.w.advanceTo(e + r.pick([0n, 1n, 4n, 5n, 6n, SEC]));
  d.w.bulk([]);
  const acts = r.shuffle([() => d.xfrom(s, f, acc(C), FEE), () => d.appr(f, s, 8n * FEE, { expect: 0n, exp: r.pick([null, d.now + 50n * SEC]) }), () => { for (const id of r.shuffle(d.calls())) d.resp(id, r.pick(['rej4', 'refunded', 'rej5', 'ok']), r.pick([5n * FEE, 4n * FEE, FEE])); }, () => d.xfer(acc(C), acc(B), 1n), () => d.xfrom(acc(C), f, acc(B), FEE), () => d.xfrom(acc('0000000000' + (4096 + 17).toString(16).padStart(6, '0') + '0101'), f, acc(B), FEE), () => d.wdf(acc('0000000000' + (4096 + 34).toString(16).padStart(6, '0') + '0101'), f, FEE), () => d.w.inflight.size || d.w.upgrade()]);
  for (const a of acts) a();
  for (let i = 0; i < 4; i++) d.xfer(acc(C), acc(B), 1n);
  return d.end();
});

// a long allowance list, with expired entries in between
S('long-listing', 3, (mk, r, v) => {
  const d = new D(mk, r, { pairs: 6, obs: { metrics: false } }), f = acc(A, v ? S1 : null), e = d.now + 10n * SEC;
  d.dep(f, 4000n * FEE); d.dep(acc(A, 'ff'.repeat(32)), 50n * FEE);
  d.w.bulk(mass([520, 499, 620][v % 3], { f, sub: true, amt: 3n * FEE, exp: (i) => i % 7 === 3 ? e : i % 5 === 0 ? e + 100n * SEC : null }));
  d.appr(acc(A, 'ff'.repeat(32)), acc(B), 5n * FEE); d.appr(acc(A, 'ff'.repeat(32)), acc(C, S1), 5n * FEE, { exp: e + 1n }); d.dep(acc(B), 10n * FEE); d.appr(acc(B), acc(A), FEE);
  for (let i = 0; i < 4; i++) d.w.advance(1n);
  d.w.advanceTo(e - 1n); d.w.advanceTo(e); d.w.advanceTo(e + 1n); d.w.advance(SEC);
  d.xfer(acc(B), acc(C), 1n); d.w.advance(SEC); d.w.upgrade(); d.w.advance(SEC);
  return d.end();
});
S('small-listing', 10, (mk, r, v) => {
  const d = new D(mk, r), os = [A, B, C], e = d.now + 10n * SEC;
  const subs = [null, Z32, S1, '00'.repeat(31) + '01', 'ff'.repeat(32)];
  for (const o of os) for (const s of subs) if (r.bool(0.6)) d.dep(acc(o, s), 60n * FEE);
  for (let i = 0; i < 16; i++) { const o = r.pick(os); d.appr(acc(o, r.pick(subs)), acc(r.pick([...os.filter((x) => x !== o), ANON, '01', r.bytes(29), TARGET]), r.pick(subs)), BigInt(r.range(1, 9)) * FEE, { exp: r.pick([null, null, e, e + SEC]) }); }
  for (const x of [e - 1n, e, e + 1n, e + SEC]) { d.w.advanceTo(x); d.w.advance(1n); if (r.bool(0.5)) d.appr(acc(A), acc(B), 0n); }
  return d.end();
});

// block ranges against extreme configurations
S('block-pages', 8, (mk, r, v) => {
  const d = new D(mk, r, { max: [0n, 1n, 3n, 100n, U64, U64 - 1n, 7n, 1000n][v % 8], pairs: 3 });
  if (d.w.maxBlocks === 0n) { d.w.advance(1n); d.w.upgrade({ Upgrade: { max_blocks_per_request: 4n, change_index_id: null } }); }
  d.dep(acc(A), 500n * FEE);
  for (let i = 0; i < 10; i++) d.xfer(acc(A), acc(B), BigInt(i));
  if (v % 8 === 0 || v % 8 === 4) d.w.upgrade({ Upgrade: { max_blocks_per_request: r.pick([2n, U64, 50n]), change_index_id: null } });
  if (d.w.maxBlocks > 0n) { d.w.bulk(Array.from({ length: r.pick([20, 70, 140]) }, (_, i) => ({ method: 'icrc1_transfer', caller: A, args: [{ from_subaccount: null, to: acc(C), amount: BigInt(i), fee: null, memo: null, created_at_time: null }] }))); for (let i = 0; i < 12; i++) d.xfer(acc(A), acc(B), 7n); }
  d.w.upgrade({ Upgrade: { max_blocks_per_request: r.pick([0n, 1n, 5n, U64]), change_index_id: { SetTo: C } } });
  for (let i = 0; i < 4; i++) d.w.advance(1n);
  d.w.upgrade({ Upgrade: { max_blocks_per_request: 40n, change_index_id: { Unset: null } } });
  for (let i = 0; i < 4; i++) d.xfer(acc(A), acc(B), 7n);
  return d.end();
});

// retries at the edges of the deduplication window, with cleanups in between
S('dedup-window', 14, (mk, r, v) => {
  const d = new D(mk, r, { time: v % 7 === 6 ? r.pick([0n, SEC, WINDOW, WINDOW + DRIFT - 1n]) : undefined }), f = acc(A), s = acc(B);
  d.dep(f, 600n * FEE); d.dep(acc(C), 100n * FEE); d.appr(f, s, 200n * FEE);
  const cat = d.now - r.pick([0n, 1n, SEC, DRIFT].filter((x) => x <= d.now)) + r.pick([0n, 0n, 0n, DRIFT]); const n = r.range(2, 5), ops = [];
  const pool = [() => d.xfer(f, acc(C), 5n, { cat }), () => d.xfer(f, acc(C), 6n, { cat, memo: r.pick(['', '01']) }), () => d.xfer(f, acc(C), 5n, { cat: cat + 1n }), () => d.xfer(f, acc(C), 5n, { cat, fee: FEE }), () => d.xfrom(s, f, acc(C), 5n, { cat }), () => d.appr(f, acc(C), 9n * FEE, { cat }), () => d.appr(f, acc(C), 9n * FEE, { cat, exp: cat + 48n * 3600n * SEC }), () => d.wd(f, 3n * FEE, { cat }), () => d.wdf(s, f, 3n * FEE, { cat }), () => d.cc(f, 5n * FEE, { cat }), () => d.ccf(s, f, 5n * FEE, { cat }), () => d.wd(f, 3n * FEE, { cat, to: C }), () => d.cc(f, 5n * FEE, { cat: cat + 1n })];
  const mine = r.shuffle([...pool]).slice(0, n + 2);
  const all = () => { for (const x of r.shuffle([...mine])) { x(); if (r.bool(0.3)) for (const id of d.calls()) if (r.bool(0.7)) d.resp(id, r.pick(['ok', 'ok', 'rej4', 'refunded'])); } };
  all(); all();
  d.w.advance(1n); d.xfer(acc(C), acc(B), 1n);
  const end = cat + WINDOW + DRIFT;
  for (const x of r.shuffle([end - 3600n * SEC, cat + WINDOW, cat + WINDOW + 1n, cat + DRIFT, end - 1n]).slice(0, 3).sort((a, b) => a < b ? -1 : 1)) { if (x > d.now) d.w.advanceTo(x); if (r.bool(0.6)) d.xfer(acc(C), acc(B), 1n); if (r.bool(0.3) && !d.w.inflight.size) d.w.upgrade(); all(); }
  for (const x of [end - 1n, end, end + 1n, end + 2n]) if (x > d.now) { d.w.advanceTo(x); if (r.bool(0.5)) d.xfer(acc(C), acc(B), 1n); all(); if (r.bool(0.5)) d.xfer(acc(C), acc(B), 1n); }
  return d.end();
});

// a duplicate sent while the original is in flight, and after every kind of ending
S('dedup-inflight', 12, (mk, r, v) => {
  const d = new D(mk, r), f = acc(A), s = acc(B), cat = d.now;
  d.dep(f, 300n * FEE); d.appr(f, s, 100n * FEE);
  const one = [() => d.cc(f, 5n * FEE, { cat }), () => d.ccf(s, f, 5n * FEE, { cat }), () => d.wd(f, 5n * FEE, { cat }), () => d.wdf(s, f, 5n * FEE, { cat })];
  const x = one[v % 4]; x(); x(); if (r.bool()) one[(v + 1) % 4]();
  d.w.advance(r.pick([1n, SEC, WINDOW])); x();
  for (const id of r.shuffle(d.calls())) { d.resp(id, r.pick(['ok', 'ok', 'rej4', 'refunded', 'refundfailed', 'garbage']), r.pick([5n * FEE, 2n * FEE, FEE])); x(); }
  if (r.bool()) d.w.upgrade(); x(); d.w.advance(WINDOW / 2n); x(); d.xfer(f, acc(C), 1n); x();
  return d.end();
});

// transactions that look alike: one creation time, one detail different; each is a transaction of its own
S('alike', 16, (mk, r, v) => {
  const rich = v % 2 === 1, d = new D(mk, r, rich ? { cycles: 1n << 100n } : {}), f = acc(A), g = acc(A, S1), s = acc(B), s2 = acc(B, S1), unit = rich ? 1n << 90n : 9000n * FEE;
  for (const a of [f, g]) { d.dep(a, unit); d.appr(a, s, unit); d.appr(a, s2, unit); }
  const cat = d.now - r.pick([0n, 1n, SEC]), P = '0000000000abcd0101', tos = [acc(C), acc(C, S1), acc(C, '00'.repeat(31) + '01'), acc(C, '01' + '00'.repeat(31)), acc(C + '00'), acc(C.slice(0, -2)), acc(P), acc(P + '01'), f, g, s, acc(ANON)];
  const bits = r.shuffle([0n, 1n, 7n, 8n, 15n, 16n, 31n, 32n, 33n, 53n, 63n, 64n, 65n, 80n]).filter((b) => rich || b < 38n), amt = 3n * FEE + BigInt(r.int(1000));
  const base = { f, s, to: tos[0], target: TARGET, amt, cat, memo: r.pick([null, '', '00', '61']), fee: r.pick([null, FEE]), exp: null, expect: null };
  const kinds = { x: (o) => d.xfer(o.f, o.to, o.amt, o), xf: (o) => d.xfrom(o.s, o.f, o.to, o.amt, o), ap: (o) => d.appr(o.f, o.to.owner === A ? acc(C) : o.to, o.amt, o), w: (o) => d.wd(o.f, o.amt, { cat: o.cat, to: o.target }), wf: (o) => d.wdf(o.s, o.f, o.amt, { cat: o.cat, to: o.target }), c: (o) => d.cc(o.f, o.amt + 3n * FEE, { cat: o.cat }), cf: (o) => d.ccf(o.s, o.f, o.amt + 3n * FEE, { cat: o.cat }) };
  const vary = [...bits.map((b) => ({ amt: amt ^ (1n << b) })), ...tos.slice(1).map((to) => ({ to })), ...['00', '0000', '61', '6100', '0061', '00'.repeat(32), '00'.repeat(31), '61'.repeat(31) + '62', '61'.repeat(32), '', null].map((memo) => ({ memo })), { f: g }, { s: s2 }, { fee: FEE }, { fee: null }, ...[1n, 2n, 1000n, 1024n, 1_000_000n, SEC, 1n << 32n].map((k) => ({ cat: cat - k })), ...[1n, 2n, 1000n, SEC].map((k) => ({ exp: d.now + 3600n * SEC + k })), { exp: d.now + 3600n * SEC }, { exp: U64 }, { expect: 'cur' }, { expect: 0n }, ...[TARGET + '00', '00000000000000f80101', B, LEDGER_ID].map((target) => ({ target }))];
  const ks = r.shuffle(Object.keys(kinds)).slice(0, 3), sent = [];
  const go = (k, o) => { if (o.expect === 'cur') o = { ...o, expect: d.w.fold.allowance(pkey(o.f, o.to), d.now).a }; sent.push([k, o]); kinds[k](o); for (const id of d.calls()) if (r.bool(0.6)) d.resp(id, r.pick(['ok', 'ok', 'rej4'])); };
  for (const k of ks) go(k, base);
  for (const x of r.shuffle(vary).slice(0, 26)) go(r.pick(ks), { ...base, ...x });
  if (r.bool(0.3)) { for (const id of d.calls()) d.resp(id, 'ok'); d.w.upgrade(); }
  d.w.advance(r.pick([1n, SEC, 3600n * SEC]));
  for (const [k, o] of r.shuffle([...sent]).slice(0, 10)) kinds[k](o);
  return d.end();
});

// amounts against the balance, to the cycle
S('exact-funds', 10, (mk, r) => {
  const d = new D(mk, r), f = acc(A, r.pick([null, S1])), s = acc(B);
  d.appr(f, s, 1n); d.dep(f, FEE); d.appr(f, s, U128);
  const base = [FEE, FEE + 1n, 2n * FEE - 1n, 2n * FEE, 2n * FEE + 1n, 5n * FEE];
  for (let i = 0; i < 12; i++) {
    const have = () => d.w.obs.bal.get(akey(f)) ?? 0n; const want = r.pick(base);
    if (have() < want) d.dep(f, want - have()); const b = have();
    const a = r.pick([b - FEE, b - FEE, b - FEE + 1n, b - FEE - 1n, b, b + 1n, b - 2n * FEE, 0n].filter((x) => x >= 0n));
    r.pick([() => d.xfer(f, acc(C), a), () => d.xfer(f, f, a), () => d.xfer(f, acc(A, f.subaccount === null ? Z32 : null), a), () => d.xfrom(s, f, acc(C), a), () => d.xfrom(s, f, f, a), () => d.xfrom(s, f, s, a), () => d.wd(f, a), () => d.wdf(s, f, a), () => d.cc(f, a), () => d.ccf(s, f, a), () => d.appr(f, acc(C), a)])();
    for (const id of d.calls()) d.resp(id, r.pick(KINDS), r.pick([a, FEE, FEE + 1n, 2n * FEE + 1n]));
  }
  return d.end();
});

// allowance against the spend, to the cycle
S('exact-allowance', 10, (mk, r) => {
  const d = new D(mk, r), f = acc(A), s = acc(B, r.pick([null, S1]));
  d.dep(f, 900n * FEE);
  for (let i = 0; i < 10; i++) {
    const a = r.pick([0n, 1n, FEE, 2n * FEE, 3n * FEE]); const exp = r.pick([null, d.now + 5n * SEC]);
    d.appr(f, s, a + FEE + r.pick([0n, 0n, 1n, -1n, FEE, -FEE]), { exp });
    if (exp && r.bool(0.5)) d.w.advanceTo(exp - r.pick([1n, 0n, -1n]));
    r.pick([() => d.xfrom(s, f, acc(C), a, { fee: r.pick([null, FEE]) }), () => d.wdf(s, f, a), () => d.ccf(s, f, a)])();
    if (r.bool(0.5)) d.xfrom(s, f, acc(C), r.pick([0n, FEE, 1n]));
    for (const id of d.calls()) d.resp(id, r.pick(KINDS), r.pick([a, FEE, FEE + 1n, 2n * FEE + 1n]));
  }
  return d.end();
});

// amounts at the top of the range
S('huge', 8, (mk, r, v) => {
  const top = r.pick([U128, U128 - 1n, U128 - FEE, U128 - 2n * FEE, 1n << 127n]);
  const d = new D(mk, r, { balances: [{ 0: acc(A), 1: top }], cycles: top });
  if (!d.ok) return d.w;
  const s = acc(B);
  d.appr(acc(A), s, r.pick([U128, U128 + 5n, U128 - 1n, 1n << 200n]));
  for (let i = 0; i < 10; i++) {
    const b = d.w.obs.bal.get(akey(acc(A))); const a = r.pick([b, b - FEE, b - FEE + 1n, U128, U128 + 1n, U128 - FEE, U128 - FEE + 1n, 1n << 128n, 1n << 127n, (1n << 64n) - 1n, 1n << 64n, FEE].filter((x) => x >= 0n));
    r.pick([() => d.xfer(acc(A), acc(C), a), () => d.xfer(acc(A), acc(A), a), () => d.xfer(acc(C), acc(A), (d.w.obs.bal.get(akey(acc(C))) ?? FEE) - FEE < 0n ? 0n : (d.w.obs.bal.get(akey(acc(C))) ?? FEE) - FEE), () => d.xfrom(s, acc(A), acc(C), a), () => d.wd(acc(A), a), () => d.wdf(s, acc(A), a), () => d.cc(acc(A), a), () => d.ccf(s, acc(A), a), () => d.appr(acc(A), s, r.pick([U128, U128 + 1n, a]), { expect: r.pick([null, d.w.fold.allowance(pkey(acc(A), s), d.now).a]), exp: r.pick([null, U64, d.now + 1n]) }), () => d.appr(acc(A), s, 5n, { expect: U128 + 1n }), () => d.xfer(acc(A), acc(C), a, { fee: r.pick([0n, U128 + 1n, U128]) }), () => { for (const id of d.calls()) d.resp(id, r.pick(KINDS), 3n * FEE); }])();
  }
  for (const id of d.calls()) d.resp(id, r.pick(['rej4', 'ok', 'refunded']));
  return d.end();
});

// fee arguments in every method, with and without other errors
S('fees', 6, (mk, r) => {
  const d = new D(mk, r), f = acc(A), s = acc(B);
  d.dep(f, 200n * FEE); d.appr(f, s, 50n * FEE);
  const fees = [null, FEE, 0n, 1n, FEE - 1n, FEE + 1n, 10n * FEE, U64, U128, U128 + 1n, 1n << 150n];
  for (const fee of r.shuffle([...fees])) {
    const amt = () => r.pick([FEE, FEE, 0n, 5000n * FEE, U128, U128 + 1n]);
    r.pick([() => d.xfer(f, acc(C), amt(), { fee }), () => d.xfer(f, f, amt(), { fee })])(); d.xfrom(s, f, acc(C), amt(), { fee }); d.appr(f, acc(C), amt(), { fee, exp: r.pick([null, d.now, d.now + SEC]), expect: r.pick([null, null, 5n, U128 + 1n]) });
    if (r.bool(0.3)) d.xfrom(f, f, acc(C), amt(), { fee });
    if (r.bool(0.3)) d.xfer(acc(C, S1), acc(A), amt(), { fee });
    if (r.bool(0.3)) d.xfrom(acc(C), f, acc(B), FEE, { fee });
  }
  return d.end();
});

// deposits around the fee, memos around the limit
S('deposits', 4, (mk, r) => {
  const d = new D(mk, r);
  for (const c of r.shuffle([0n, 1n, FEE - 1n, FEE, FEE + 1n, 2n * FEE, 2n * FEE + 1n, 1n << 64n, 1n << 100n])) for (const to of [acc(A), acc(A, Z32), acc(A, S1), acc(MGMT), acc(ANON), acc(LEDGER_ID)]) if (r.bool(0.4)) d.w.call('deposit', [{ to, memo: r.pick([null, null, '', '00', 'ab'.repeat(31), 'ab'.repeat(32), 'ab'.repeat(33), 'ff'.repeat(32)]) }], { caller: r.pick([A, B, ANON]), cycles: c });
  d.xfer(acc(A), acc(B), 1n); d.w.upgrade(); d.dep(acc(A), FEE);
  return d.end();
});

// accounts written with and without the default subaccount
S('subaccounts', 6, (mk, r) => {
  const d = new D(mk, r), v = (a) => r.bool() ? acc(a.owner, null) : acc(a.owner, Z32), a = acc(A), b = acc(B), c = acc(C);
  d.dep(v(a), 200n * FEE); d.dep(v(b), 20n * FEE);
  for (let i = 0; i < 14; i++) { const cat = r.bool(0.3) ? d.now : null; r.pick([() => d.xfer(v(a), v(b), FEE, { cat }), () => d.appr(v(a), v(b), 9n * FEE, { cat }), () => d.appr(v(a), v(b), 0n), () => d.xfrom(v(b), v(a), v(c), FEE, { cat }), () => d.xfer(v(a), v(a), FEE), () => d.wdf(v(b), v(a), 3n * FEE, { cat }), () => d.wd(v(a), 3n * FEE, { cat }), () => d.ccf(v(b), v(a), 3n * FEE, { cat }), () => d.xfrom(v(a), v(a), v(c), FEE), () => { for (const id of d.calls()) d.resp(id, r.pick(['rej4', 'ok', 'refunded'])); }])(); }
  for (const id of d.calls()) d.resp(id, 'rej4');
  return d.end();
});

// many operations in flight, answered in any order, some never sent
S('many-inflight', 10, (mk, r) => {
  const d = new D(mk, r), fs = [acc(A), acc(A, S1), acc(C)], s = acc(B);
  for (const f of fs) { d.dep(f, 200n * FEE); d.appr(f, s, 150n * FEE, { exp: r.pick([null, d.now + 10n * SEC]) }); }
  for (let i = 0; i < 10; i++) { const f = r.pick(fs), a = r.pick([FEE, FEE + 1n, 2n * FEE + 1n, 3n * FEE, 10n * FEE]), o = { cat: r.bool(0.3) ? d.now : null, faults: r.bool(0.15) ? r.pick([{ perform: 2 }, { liquid: 0n }, { perform: 3 }]) : null }; r.pick([() => d.wd(f, a, o), () => d.wdf(s, f, a, o), () => d.cc(f, a, o), () => d.ccf(s, f, a, o)])(); if (r.bool(0.15)) d.w.advance(r.pick([1n, 4n * SEC, 10n * SEC])); if (r.bool(0.2)) { const ids = d.calls(); if (ids.length) d.resp(r.pick(ids), r.pick(KINDS), r.pick([a, FEE])); } }
  for (const id of r.shuffle(d.calls())) { d.resp(id, r.pick(KINDS), r.pick([FEE, FEE + 1n, 2n * FEE, 2n * FEE + 1n, 10n * FEE])); if (r.bool(0.2)) d.xfer(r.pick(fs), acc(B), 1n); }
  return d.end();
});

// one kind of operation ending the same way very many times, then everything else
S('many-endings', 16, (mk, r, v) => {
  const d = new D(mk, r, { cycles: 1n << 60n, pairs: 4 }), f = acc(A, r.pick([null, S1])), s = acc(B), big = 10n * FEE, small = [1n, FEE - 1n, FEE];
  d.dep(f, 20000n * FEE); d.appr(f, s, 15000n * FEE, { exp: r.pick([null, d.now + 3600n * SEC]) });
  const M = { wd: (a, o) => d.wd(f, a, o), wdf: (a, o) => d.wdf(s, f, a, o), cc: (a, o) => d.cc(f, a, o), ccf: (a, o) => d.ccf(s, f, a, o) }, names = Object.keys(M);
  const E = [
    (m) => { M[m](r.pick(small)); for (const id of d.calls()) d.resp(id, 'rej4'); },
    (m) => { M[m](big); for (const id of d.calls()) d.resp(id, m[0] === 'w' ? r.pick(['rej4', 'rej5', 'garbage']) : 'refunded', r.pick(small)); },
    (m) => { M[m](big); for (const id of d.calls()) d.resp(id, 'refunded', 2n * FEE); },
    (m) => { M[m](big); for (const id of d.calls()) d.resp(id, r.pick(['rej2', 'rej3', 'rej5'])); },
    (m) => { M[m](big); for (const id of d.calls()) d.resp(id, 'garbage'); },
    (m) => { M[m](big); for (const id of d.calls()) d.resp(id, 'refundfailed'); },
    (m) => { M[m](r.pick([big, FEE]), { faults: r.pick([{ perform: 2 }, { perform: 3 }]) }); for (const id of d.calls()) d.resp(id, 'ok'); },
    (m) => { M[m](big); for (const id of d.calls()) d.resp(id, 'ok'); },
    (m) => { M[m](big, { cat: d.now }); M[m](big, { cat: d.now }); for (const id of d.calls()) d.resp(id, 'rej4'); M[m](big, { cat: d.now }); d.w.advance(1n); },
    (m) => { M[m](r.pick([1n << 100n, U128, 30000n * FEE])); M[m](1n, { cat: r.pick([0n, d.now + 2n * DRIFT]) }); },
  ];
  const e = E[r.pick([v % 2, v % E.length, r.int(E.length)])], m = names[(v >> 1) % 4], n = r.pick([110, 140, 270]);
  for (let i = 0; i < n && !(i > 10 && d.w.balance(f) < 500n * FEE); i++) r.bool(0.95) ? e(m) : r.pick(E)(r.pick(names));
  d.appr(f, s, 300n * FEE); for (const x of names) { M[x](big); for (const id of d.calls()) d.resp(id, r.pick(['ok', 'rej4'])); } d.xfer(f, s, 1n); d.xfrom(s, f, acc(C), 1n);
  return d.end();
});

// very many operations in flight at once
S('flood', 4, (mk, r, v) => {
  const d = new D(mk, r, { cycles: 1n << 50n, pairs: 6 }), s = acc(B), fs = v % 2 ? [acc(A)] : [acc(A), acc(A, S1), acc(C)], n = [60, 150, 40, 100][v % 4];
  for (const f of fs) { d.dep(f, 5000n * FEE); d.appr(f, s, 4000n * FEE, { exp: r.pick([null, d.now + 100n * SEC]) }); }
  const kinds = v < 2 ? ['wd', 'wdf', 'cc', 'ccf'] : [r.pick(['wd', 'wdf']), r.pick(['cc', 'ccf'])];
  for (let i = 0; i < n; i++) { const f = r.pick(fs), a = 3n * FEE + BigInt(i), o = { cat: r.bool(0.3) ? d.now : null }, k = r.pick(kinds); k === 'wd' ? d.wd(f, a, o) : k === 'wdf' ? d.wdf(s, f, a, o) : k === 'cc' ? d.cc(f, a, o) : d.ccf(s, f, a, o); if (i % 9 === 8) d.w.advance(1n); }
  for (const id of r.shuffle(d.calls())) { d.resp(id, r.pick(KINDS)); if (r.bool(0.05)) d.xfer(r.pick(fs), s, 1n); if (r.bool(0.02)) d.w.advance(r.pick([SEC, 60n * SEC])); }
  return d.end();
});

// an answer that arrives when the account, the approval or the time has moved on
S('unsendable', 6, (mk, r) => {
  const d = new D(mk, r), f = acc(A), s = acc(B), e = d.now + 10n * SEC;
  d.dep(f, 200n * FEE);
  for (let i = 0; i < 8; i++) { const a = r.pick([1n, FEE, FEE + 1n, 2n * FEE, 2n * FEE + 1n, 5n * FEE]); d.appr(f, s, a + FEE + r.pick([0n, 0n, FEE, 5n * FEE]), { exp: r.pick([null, e + 100n * SEC]) }); const faults = r.pick([{ perform: 1 }, { perform: 2 }, { perform: 3 }, { liquid: 0n }, { liquid: a - 1n }, { liquid: a }]); const cat = r.bool(0.4) ? d.now : null; const x = r.pick([() => d.wd(f, a, { faults, cat }), () => d.wdf(s, f, a, { faults, cat }), () => d.cc(f, a, { faults, cat }), () => d.ccf(s, f, a, { faults, cat })]); x(); if (r.bool(0.5)) x(); if (r.bool(0.4)) d.xfrom(s, f, acc(C), FEE); for (const id of d.calls()) d.resp(id, r.pick(['ok', 'rej2'])); }
  return d.end();
});

// installation arguments
S('install', 24, (mk, r, v) => {
  const subs = [null, Z32, S1];
  const amounts = [0n, 1n, FEE, 100n * FEE, 1n << 64n, 1n << 127n, U128, U128 - 1n];
  const n = [0, 1, 2, 3, 6, 20][v % 6]; const bal = v % 8 === 0 ? null : Array.from({ length: n }, () => ({ 0: acc(r.pick([A, B, C, ANON, MGMT]), r.pick(subs)), 1: v % 3 === 0 ? r.pick(amounts) : r.bigBelow(1000n * FEE) }));
  const total = (bal ?? []).reduce((x, e) => x + e[1], 0n);
  const d = new D(mk, r, { init: { max_blocks_per_request: bal && bal.length ? r.pick([1n, 2n, 100n, U64]) : r.pick([1n, U64, 0n]), index_id: r.pick([null, C, ANON, MGMT, 'ab'.repeat(29)]), initial_balances: bal }, cycles: total });
  if (!d.ok) { for (const m of d.w.monitors) if (m.onFailedInstall) m.onFailedInstall(d.w); return d.w; }
  if (bal) for (const e of bal.slice(0, 3)) if (e[1] >= FEE && e[0].owner !== MGMT) d.xfer(e[0], acc(C, 'aa'.repeat(32)), r.pick([0n, 1n, e[1] - FEE]));
  d.w.upgrade({ Init: { max_blocks_per_request: 3n, index_id: null, initial_balances: [{ 0: acc(A), 1: 9n * FEE }] } });
  d.w.upgrade();
  return d.end();
});

// upgrades after every kind of history
S('upgrades', 14, (mk, r, v) => {
  const d = new D(mk, r, { pairs: 16 }); const e = new Episode(d.w, { ...PROFILES.C24, ops: { ...PROFILES.C24.ops, upgrade: 0 } });
  for (let i = r.range(5, 30); i > 0; i--) e.step();
  d.w.drain((x) => e.answer(x));
  const args = [undefined, { Upgrade: null }, { Upgrade: { max_blocks_per_request: null, change_index_id: null } }, { Upgrade: { max_blocks_per_request: 17n, change_index_id: null } }, { Upgrade: { max_blocks_per_request: null, change_index_id: { SetTo: B } } }, { Upgrade: { max_blocks_per_request: 60n, change_index_id: { Unset: null } } }, { Init: { max_blocks_per_request: 3n, index_id: null, initial_balances: null } }];
  for (let i = 0; i < 5; i++) { d.w.upgrade(args[(v + i) % args.length]); for (let k = r.int(5); k > 0; k--) e.step(); for (const c of e.done.slice(-3)) e.issue({ ...c, faults: null }); d.w.drain((x) => e.answer(x)); if (r.bool(0.4)) e.time(); }
  if (d.w.upgradeModule) d.w.upgrade(undefined, { module: d.w.upgradeModule });
  d.w.upgrade(undefined, { raw: new Uint8Array([0x44, 0x49, 0x44, 0x4c, 1, 0]), expectTrap: true });
  return d.end();
});

// denied and odd principals everywhere
S('principals', 6, (mk, r) => {
  const d = new D(mk, r), odd = [MGMT, ANON, LEDGER_ID, CMC, 'ab'.repeat(28) + '02', 'ab'.repeat(29), 'ab'.repeat(27) + '02', '02', '01', A, 'ab'.repeat(28) + '04', '00'.repeat(28) + '02'];
  for (const o of odd) if (o !== MGMT) { d.dep(acc(o), 40n * FEE); }
  d.dep(acc(MGMT), 40n * FEE);
  for (let i = 0; i < 26; i++) { const x = acc(r.pick(odd), r.pick([null, null, S1])), y = acc(r.pick(odd), r.pick([null, S1])), z = acc(r.pick(odd)); const c = r.pick(odd); r.pick([() => d.xfer(x, y, FEE), () => d.appr(x, y, 9n * FEE), () => d.xfrom(x, y, z, FEE), () => d.wd(x, r.pick([0n, FEE, 3n * FEE]), { to: c }), () => d.wdf(x, y, r.pick([0n, FEE, 3n * FEE]), { to: c }), () => d.cc(x, 3n * FEE), () => d.ccf(x, y, 3n * FEE), () => { for (const id of d.calls()) d.resp(id, r.pick(KINDS)); }])(); }
  for (const id of d.calls()) d.resp(id, r.pick(KINDS));
  return d.end();
});

// accounts that look alike: every byte of the subaccount and of the owner counts
S('near-accounts', 8, (mk, r, v) => {
  const d = new D(mk, r), o = r.pick([A, A, 'ab'.repeat(28) + '02', '5a'.repeat(10)]), base = [null, S1, 'ff'.repeat(32), r.bytes(32), principalSub(B), '00'.repeat(31) + '01', r.bytes(16) + '00'.repeat(16), '5b'.repeat(8) + r.bytes(24)][v % 8];
  const near = (i) => i % 6 === 5 && o.length > 20 ? acc(o.slice(0, 2 * (i % (o.length / 2 - 1))) + (parseInt(o.slice(2 * (i % (o.length / 2 - 1)), 2 * (i % (o.length / 2 - 1)) + 2), 16) ^ (1 << r.int(8))).toString(16).padStart(2, '0') + o.slice(2 * (i % (o.length / 2 - 1)) + 2), base) : acc(o, nearSub(r, base, i));
  const main = acc(o, base), all = [main], cat = r.bool() ? d.now : null, s = acc(B); d.dep(main, 900n * FEE);
  for (const i of r.shuffle(Array.from({ length: 32 }, (_, k) => k))) {
    const x = near(i); if (akey(x) === akey(main)) continue; all.push(x);
    if (i % 4 === 0) d.dep(x, 9n * FEE + BigInt(i)); else d.xfer(main, x, 7n * FEE, { cat });
    r.pick([() => d.xfer(x, main, FEE + BigInt(i), { cat }), () => d.appr(x, s, 4n * FEE, { cat }), () => d.appr(main, x, 5n * FEE, { cat, exp: r.bool() ? d.now + 90n * SEC : null }), () => d.xfrom(s, x, main, FEE, { cat }), () => d.wd(x, 3n * FEE, { cat }), () => d.xfrom(x, main, x, 2n * FEE, { cat })])();
    if (r.bool(0.25)) { const y = r.pick(all), z = r.pick(all); r.pick([() => d.xfer(y, z, 1n), () => d.xfrom(y, z, main, FEE), () => d.wdf(s, y, FEE), () => d.appr(y, s, 0n), () => d.xfer(y, main, FEE, { cat })])(); }
    for (const id of d.calls()) if (r.bool(0.5)) d.resp(id, r.pick(['ok', 'rej4']));
  }
  for (const id of d.calls()) d.resp(id, 'rej4');
  if (v % 3 === 0) d.w.upgrade();
  return d.end();
});

// time near both ends of its range
S('clock', 8, (mk, r, v) => {
  const t0 = [0n, 1n, DRIFT - 1n, WINDOW, WINDOW + DRIFT, U64 - WINDOW - DRIFT - 5n, U64 - DRIFT - 3n, U64 - 5n][v % 8];
  const d = new D(mk, r, { time: t0 }), f = acc(A), s = acc(B);
  d.dep(f, 300n * FEE); d.appr(f, s, 50n * FEE);
  for (let i = 0; i < 14; i++) {
    const t = d.now, cat = r.pick([null, 0n, 1n, t, t + DRIFT, t + DRIFT + 1n, U64, U64 - DRIFT, t > WINDOW + DRIFT ? t - WINDOW - DRIFT : 0n, t > WINDOW + DRIFT ? t - WINDOW - DRIFT - 1n : 0n].filter((x) => x === null || x <= U64)), exp = r.pick([null, U64, t, t < U64 ? t + 1n : t, 0n, 1n].filter((x) => x === null || x <= U64));
    r.pick([() => d.xfer(f, acc(C), 1n, { cat }), () => d.appr(f, s, 50n * FEE, { cat, exp }), () => d.appr(f, acc(C), 50n * FEE, { cat, exp }), () => d.xfrom(s, f, acc(C), 1n, { cat }), () => d.wd(f, 3n * FEE, { cat }), () => d.wdf(s, f, 3n * FEE, { cat }), () => d.cc(f, 3n * FEE, { cat })])();
    for (const id of d.calls()) if (r.bool(0.7)) d.resp(id, r.pick(KINDS));
    const nt = t + r.pick([0n, 1n, SEC, DRIFT]); if (nt < U64) d.w.advanceTo(nt);
  }
  return d.end();
});

// a log long enough for its index to need more bytes
S('long-log', 3, (mk, r, v) => {
  if (v % 3 === 2) { // across the index that needs a third byte
    const n = 16383 - r.int(3), d = new D(mk, r, { pairs: 3, max: 10000n, cycles: BigInt(n) * 4n * FEE, balances: Array.from({ length: n }, (_, i) => ({ 0: [acc(A), acc(B, S1), acc(C)][i % 3], 1: 2n * FEE + BigInt(i % 5) })) });
    for (let i = 0; i < 3; i++) { d.xfer(acc(A), acc(B), 7n); d.wd(acc(A), 5n * FEE); }
    d.w.drain(() => okDeposit()); d.w.upgrade(); d.dep(acc(A), 5n * FEE);
    return d.end();
  }
  const d = new D(mk, r, { pairs: 3, max: 1000n }); d.dep(acc(A), 5000n * FEE);
  d.w.bulk(Array.from({ length: v % 3 ? 270 : 124 }, (_, i) => ({ method: 'icrc1_transfer', caller: A, args: [{ from_subaccount: null, to: acc(C), amount: BigInt(i), fee: null, memo: null, created_at_time: null }] })));
  for (let i = 0; i < 8; i++) d.xfer(acc(A), acc(B), 7n);
  d.w.upgrade(); d.xfer(acc(A), acc(B), 7n); d.wd(acc(A), 5n * FEE);
  return d.end();
});

// across the index that two whole bytes cannot hold
S('far-log', 1, (mk, r) => {
  const n = 65535 - r.int(3), d = new D(mk, r, { pairs: 3, max: 1000n, cycles: BigInt(n) * 4n * FEE, balances: Array.from({ length: n }, (_, i) => ({ 0: [acc(A), acc(B, S1), acc(C)][i % 3], 1: 2n * FEE + BigInt(i % 5) })) });
  const o = { cat: d.now }; for (let i = 0; i < 4; i++) d.xfer(acc(A), acc(B), BigInt(i), o);
  d.appr(acc(A), acc(C), 50n * FEE, o); d.wdf(acc(C), acc(A), 5n * FEE, o); d.cc(acc(A), 5n * FEE, o); for (const id of r.shuffle(d.calls())) d.resp(id, r.pick(['ok', 'refunded', 'rej4']));
  for (let i = 0; i < 4; i++) d.xfer(acc(A), acc(B), BigInt(i), o);
  d.wdf(acc(C), acc(A), 5n * FEE, o); d.cc(acc(A), 5n * FEE, o);
  for (const a of [[65530n, 10n], [65536n, 3n], [0n, 2n], [65535n, U64]]) d.w.query('icrc3_get_blocks', [[{ start: a[0], length: a[1] }]]);
  d.w.upgrade(); d.dep(acc(A), 5n * FEE); d.xfer(acc(A), acc(B), 2n, o);
  return d.end();
});

// more accounts and blocks than any page or limit one might think of
S('many-accounts', 3, (mk, r, v) => {
  const n = [300, 1030, 2100][v % 3], who = (i) => acc('0000000000' + (i + 4096).toString(16).padStart(6, '0') + '0101', i % 7 === 3 ? S1 : null);
  const d = new D(mk, r, { pairs: 3, max: 10000n, cycles: BigInt(n + 100) * 9n * FEE, balances: Array.from({ length: n }, (_, i) => ({ 0: who(i), 1: 2n * FEE + BigInt(i) })) });
  d.xfer(who(0), who(n - 1), FEE); d.dep(who(n - 2), FEE); d.w.upgrade(); d.xfer(who(n - 1), acc(B), FEE); d.xfer(who(5), who(6), FEE + 5n);
  for (const a of [[0n, BigInt(n)], [0n, 10000n], [BigInt(n - 5), 100n], [1n, 1001n]]) d.w.query('icrc3_get_blocks', [[{ start: a[0], length: a[1] }]]);
  d.w.upgrade({ Upgrade: { max_blocks_per_request: 20000n, change_index_id: null } }); d.dep(acc(C), FEE);
  return d.end();
});

// a history that begins under the released code and goes on under the present one
S('released', 16, (mk, r, v) => {
  const d = new D(mk, r, { released: true, pairs: 16, max: r.pick([1n, 7n, 100n]), balances: v % 3 === 0 ? [{ 0: acc(A), 1: 50n * FEE }, { 0: acc(B, S1), 1: 3n * FEE }, { 0: acc(A, Z32), 1: 1n }] : null });
  const log = [], call = d.w.call.bind(d.w); d.w.call = (m, a, o) => { log.push([m, a, o]); return call(m, a, o); };
  const amt = () => r.pick([FEE, 2n * FEE, r.big(r.range(1, 35))]);
  const f = acc(A, r.pick([null, S1])), s = acc(B, r.pick([null, S1])), e1 = d.now + 10n * SEC, now = d.now;
  d.dep(f, 300n * FEE, r.pick([null, '', '00', 'ab'.repeat(32)])); d.dep(acc(C), 60n * FEE, r.bytes(7)); d.dep(acc(A, Z32), 20n * FEE);
  const acts = [
    () => d.xfer(f, acc(C, r.pick([null, Z32, S1])), amt(), { memo: r.pick([null, '', r.bytes(32)]), cat: r.pick([null, now]), fee: r.pick([null, FEE]) }),
    () => d.appr(f, s, 20n * FEE, { expect: d.w.fold.allowance(pkey(f, s), d.now).a, exp: r.pick([null, e1, e1 + 5n, U64]), memo: r.pick([null, '07']), cat: r.pick([null, now]) }),
    () => d.appr(f, acc(C), r.pick([5n * FEE, U128]), { exp: r.pick([e1, null]) }), () => d.appr(acc(C), acc(A), 9n * FEE, { fee: FEE }),
    () => d.xfrom(s, f, acc(C), amt(), { memo: r.pick([null, '01']), cat: r.pick([null, now]) }),
    () => d.wd(f, r.pick([3n * FEE, amt() + 1n]), { cat: r.pick([null, now]) }), () => d.wdf(s, f, 3n * FEE, { cat: r.pick([null, now]) }), () => d.cc(f, 3n * FEE), () => d.ccf(s, f, 4n * FEE, { cat: r.pick([null, now]) }),
    () => { for (const id of d.calls()) d.resp(id, r.pick(KINDS), 3n * FEE); },
    () => d.dep(acc(r.pick([A, B, C]), r.pick([null, S1])), r.bigBelow(9n * FEE) + 1n, r.pick([null, '', r.bytes(9)])),
  ];
  const seen = []; const go = (n) => { for (; n > 0; n--) { const a = r.pick(acts); seen.push(a); a(); } for (const id of d.calls()) d.resp(id, r.pick(KINDS), 3n * FEE); };
  if (v % 2) { const e = new Episode(d.w, { ...PROFILES.C24, ops: { ...PROFILES.C24.ops, upgrade: 0 } }); for (let i = r.range(5, 25); i > 0; i--) e.step(); d.w.drain((x) => e.answer(x)); d.e = e; }
  go(r.range(6, 16));
  if (r.bool(0.3)) { d.w.upgrade(r.pick([undefined, { Upgrade: { max_blocks_per_request: 9n, change_index_id: { SetTo: B } } }])); go(2); }
  if (r.bool(0.3)) d.w.advanceTo(r.pick([e1 - 1n, e1, e1 + 5n]));
  d.w.upgrade(r.pick([undefined, { Upgrade: null }, { Upgrade: { max_blocks_per_request: r.pick([null, 13n]), change_index_id: r.pick([null, { SetTo: C }, { Unset: null }]) } }]), { module: d.w.upgradeModule });
  // what was executed before is still a duplicate
  for (const [m, a, o] of log.filter(([, a]) => a && a[0] && a[0].created_at_time).slice(-25)) call(m, a, { ...o, faults: null });
  if (d.e) for (const c of d.e.done.slice(-4)) d.e.issue({ ...c, faults: null });
  d.w.drain((x) => d.ans(x.call.id, 'ok'));
  go(6); if (r.bool(0.5)) d.w.upgrade(); d.w.advanceTo(e1); go(3); d.w.advanceTo(now + WINDOW + DRIFT + r.pick([0n, 1n])); go(3);
  return d.end();
});

SCENARIOS.push({ name: 'companions', variants: 1600, props: ['C30'], run: (mk, r, v) => companions(mk, r, v) });
SCENARIOS.push({ name: 'work', variants: 26, props: ['C31'], run: (mk, r, v) => v % 13 === 0 ? memory(mk, r, v / 13, 1500) : ((k) => work(mk, r, k, [1500, 3000, 6000][(k / 3 | 0) % 3]))(v - 1 - (v / 13 | 0)) });
