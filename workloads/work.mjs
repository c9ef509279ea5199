// The same operations on a ledger with little and on one with much history, with the work of every message metered.
import { did, okDeposit, rej, cmcOk, cmcRefunded } from '../engine/world.mjs';
import { unhex } from '../engine/candid.mjs';
import { acc, FEE, SEC, WINDOW, DRIFT, U64, Z32 } from '../engine/ledger.mjs';

const A = '00000000000000a10101', B = '00000000000000b20101', C = '00000000000000c30101', TARGET = '00000000000000f70101', S1 = '11'.repeat(32);
const T0 = 1_700_000_000n * SEC, HOUR = 3600n * SEC;
const who = (i) => acc('0000000000' + (i + 4096).toString(16).padStart(6, '0') + '0101', i % 7 === 3 ? S1 : null);

class Side {
  constructor(mk, name, n, plan) {
    this.n = n; this.name = name;
    this.w = mk({ seed: 'work' + plan.seed, init: { max_blocks_per_request: 50n, index_id: null, initial_balances: [{ 0: acc(A), 1: BigInt(4 * n + 4000) * FEE }, { 0: acc(C), 1: 100n * FEE }, ...Array.from({ length: n }, (_, i) => ({ 0: who(i), 1: 40n * FEE + BigInt(i) }))] }, time: T0, ledgerCycles: BigInt(60 * n + 9000) * FEE, obs: { pairs: 0, metrics: false } });
    const c = this.can = this.w.can; c.time = this.w.now;
    const r = c.install(did.encode(did.init, [{ Init: this.w.initArgs }])); if (r.trap) throw new Error('installation trapped: ' + r.trap.msg);
    this.open = [];
  }
  get now() { return this.can.time; }
  call(method, arg, caller, cycles = 0n) {
    const r = this.can.update(method, did.encode(did.service[method].args, [arg]), { caller: unhex(caller), cycles });
    r.work = this.can.work; r.ids = r.m && !r.trap ? r.m.out.map((x) => x.id) : [];
    this.open.push(...r.ids);
    r.k = r.trap ? 'trap' : !r.ctx.responded ? 'pending' : r.ctx.result.kind !== 'reply' ? 'reject' : (() => { const x = did.decode(did.service[method].rets, r.ctx.result.data)[0]; return x && x.Err ? Object.keys(x.Err)[0] : 'Ok'; })();
    return r;
  }
  query(method, args, caller = C) { const r = this.can.query(method, did.encode(did.service[method].args, args), { caller: unhex(caller) }); return { work: this.can.work, k: r.kind, r: r.kind === 'reply' ? did.decode(did.service[method].rets, r.data)[0] : null }; }
  answer(id, resp) { if (id === undefined) return { work: { steps: 1, bytes: 0 }, k: 'nothing open', ids: [] }; this.open.splice(this.open.indexOf(id), 1); const r = this.can.deliver(id, resp); return { work: this.can.work, k: r.trap ? 'trap' : r.ctx.responded ? 'answered' : 'pending', ids: r.m && !r.trap ? r.m.out.map((x) => x.id) : [] }; }
  xfer(f, to, amount, o = {}) { return this.call('icrc1_transfer', { from_subaccount: f.subaccount, to, amount, fee: null, memo: o.memo ?? null, created_at_time: o.cat ?? null }, f.owner); }
  appr(f, s, amount, o = {}) { return this.call('icrc2_approve', { from_subaccount: f.subaccount, spender: s, amount, expected_allowance: o.expect ?? null, expires_at: o.exp ?? null, fee: null, memo: null, created_at_time: o.cat ?? null }, f.owner); }
  xfrom(s, f, to, amount, o = {}) { return this.call('icrc2_transfer_from', { spender_subaccount: s.subaccount, from: f, to, amount, fee: null, memo: null, created_at_time: o.cat ?? null }, s.owner); }
  wd(f, amount, o = {}) { return this.call('withdraw', { from_subaccount: f.subaccount, to: TARGET, amount, created_at_time: o.cat ?? null }, f.owner); }
  wdf(s, f, amount) { return this.call('withdraw_from', { spender_subaccount: s.subaccount, from: f, to: TARGET, amount, created_at_time: null }, s.owner); }
  cc(f, amount, o = {}) { return this.call('create_canister', { from_subaccount: f.subaccount, amount, created_at_time: o.cat ?? null, creation_args: null }, f.owner); }
  ccf(s, f, amount) { return this.call('create_canister_from', { spender_subaccount: s.subaccount, from: f, amount, created_at_time: null, creation_args: null }, s.owner); }
  // history: accounts, blocks, approvals by one and by many, remembered transactions, requests in flight
  history(plan) {
    const n = this.n, far = this.now + 1000n * HOUR, soon = this.now + 2n * HOUR;
    this.soon = soon; let steps = 0;
    for (let i = 0; i < n; i++) {
      const exp = plan.expire ? (i % 4 === 3 ? null : soon + BigInt(i % plan.instants)) : i % 2 ? far + BigInt(i) : null, cat = this.now - BigInt(i);
      if (i % 2) this.appr(acc(A), who(i), 9n * FEE, { exp, cat }); else this.appr(who(i), acc(B), 9n * FEE, { exp, cat });
      if (plan.expire && i % 3 === 0) this.appr(acc(A, S1), who(i), FEE, { exp }); // refused: no funds
      steps += this.can.work.steps; if (steps > 100000 * (n + 1000)) { this.n = i; break; } // already far too much: compared as it is
    }
    for (let i = 0; i < n / 20; i++) this.wd(acc(A), 2n * FEE);
    this.appr(acc(C), acc(B), 60n * FEE);
    if (plan.upgrade && !this.open.length) this.can.upgrade(did.encode([], []));
    return this;
  }
}
// each of these is done on both sides, in the same order
const mid = (s) => who((s.n >> 1) | 1);
const OPS = {
  'deposit to an account': (s) => s.call('deposit', { to: mid(s), memo: null }, C, 5n * FEE), 'deposit to a new account': (s) => s.call('deposit', { to: acc(TARGET, S1), memo: '01' }, C, 5n * FEE), 'deposit of too little': (s) => s.call('deposit', { to: acc(C), memo: null }, C, FEE),
  'transfer': (s) => s.xfer(mid(s), who(2), FEE), 'transfer with creation time': (s) => s.xfer(mid(s), who(3), FEE, { cat: s.now - 1n }), 'repeated transfer': (s) => s.xfer(mid(s), who(3), FEE, { cat: s.now - 1n }), 'transfer to a new account': (s) => s.xfer(mid(s), acc(TARGET), FEE), 'transfer without funds': (s) => s.xfer(mid(s), who(2), 10000n * FEE), 'transfer too old': (s) => s.xfer(mid(s), who(2), FEE, { cat: s.now - WINDOW - DRIFT - 1n }), 'transfer by one with many approvals': (s) => s.xfer(acc(A), who(1), FEE),
  'approval': (s) => s.appr(acc(A), acc(TARGET), FEE, { exp: s.now + HOUR }), 'approval replaced': (s) => s.appr(acc(A), who(1), 7n * FEE, { exp: s.now + 3n * HOUR }), 'conditional approval': (s) => s.appr(acc(A), acc(TARGET), 3n * FEE, { expect: FEE }), 'conditional approval refused': (s) => s.appr(acc(A), acc(TARGET), 3n * FEE, { expect: 17n * FEE }), 'revocation': (s) => s.appr(acc(A), acc(TARGET), 0n),
  'transfer by a spender': (s) => s.xfrom(acc(B), who(2), acc(C), FEE), 'transfer by a spender without allowance': (s) => s.xfrom(who(2), who(3), acc(C), FEE), 'transfer by a spender using everything': (s) => s.xfrom(acc(B), who(4), acc(C), 8n * FEE),
  'withdrawal': (s) => s.wd(acc(C), 3n * FEE), 'answer: delivered': (s) => s.answer(s.open.at(-1), okDeposit()), 'withdrawal to fail': (s) => s.wd(acc(C), 3n * FEE), 'answer: not delivered': (s) => s.answer(s.open.at(-1), rej(5, 'no', 3n * FEE)), 'withdrawal by a spender': (s) => s.wdf(acc(B), acc(C), 4n * FEE), 'answer: not delivered, allowance restored': (s) => s.answer(s.open.at(-1), rej(4, 'no', 4n * FEE)),
  'creation': (s) => s.cc(acc(C), 5n * FEE, { cat: s.now }), 'answer: created': (s) => s.answer(s.open.at(-1), cmcOk(TARGET)), 'repeated creation': (s) => s.cc(acc(C), 5n * FEE, { cat: s.now }), 'creation by a spender': (s) => s.ccf(acc(B), acc(C), 5n * FEE), 'answer: refunded, allowance restored': (s) => s.answer(s.open.at(-1), cmcRefunded(4n * FEE, 'no')),
  'balance': (s) => s.query('icrc1_balance_of', [mid(s)]), 'balance of nobody': (s) => s.query('icrc1_balance_of', [acc(TARGET, Z32)]), 'supply': (s) => s.query('icrc1_total_supply', []), 'allowance': (s) => s.query('icrc2_allowance', [{ account: acc(A), spender: mid(s) }]), 'no allowance': (s) => s.query('icrc2_allowance', [{ account: who(3), spender: mid(s) }]), 'metadata': (s) => s.query('icrc1_metadata', []), 'tip': (s) => s.query('icrc3_get_tip_certificate', []),
  'first blocks': (s) => s.query('icrc3_get_blocks', [[{ start: 0n, length: 5n }]]), 'last blocks': (s) => s.query('icrc3_get_blocks', [[{ start: BigInt(2 * s.n), length: 5n }]]), 'all blocks': (s) => s.query('icrc3_get_blocks', [[{ start: 0n, length: U64 }]]), 'ranges': (s) => s.query('icrc3_get_blocks', [Array.from({ length: 10 }, (_, i) => ({ start: BigInt(s.n + i), length: 3n }))]), 'blocks past the end': (s) => s.query('icrc3_get_blocks', [[{ start: U64, length: 5n }]]), 'archives': (s) => s.query('icrc3_get_archives', [{ from: null }]), 'metrics': (s) => s.query('http_request', [{ url: '/metrics', method: 'GET', body: '', headers: [] }]), 'index': (s) => s.query('icrc106_get_index_principal', []),
  'listing of ten': (s) => s.query('icrc103_get_allowances', [{ from_account: acc(A), prev_spender: null, take: 10n }]), 'listing of one after another': (s) => s.query('icrc103_get_allowances', [{ from_account: acc(A), prev_spender: who(5), take: 1n }]), 'listing for an owner of one': (s) => s.query('icrc103_get_allowances', [{ from_account: who(2), prev_spender: null, take: null }]), 'listing for nobody': (s) => s.query('icrc103_get_allowances', [{ from_account: acc(TARGET), prev_spender: null, take: null }]), 'own listing': (s) => s.query('icrc103_get_allowances', [{ from_account: null, prev_spender: null, take: 3n }], B),
};
export function work(mk, r, v, big) {
  const expire = v % 3 === 2, plan = { seed: r.bytes(4), expire, instants: r.pick([1, 7, 1000]), upgrade: false };
  const sizes = expire ? [400, big] : [60, big];
  const [a, b] = sizes.map((n, i) => new Side(mk, i ? 'much' : 'little', n, plan).history(plan));
  const w = b.w, mon = w.monitors.find((m) => m.prop === 'C31') ?? null; w.sizes = sizes; if (!mon) return w;
  const both = (label, f) => { const x = f(a), y = f(b); mon.judge(w, { label, sizes, expire, little: x.work, much: y.work, outcome: [x.k, y.k] }); return [x, y]; };
  if (expire) { // many approvals expire at once: each message cleans up no more than its share
    for (const s of [a, b]) s.can.time = s.soon + 2000n;
    for (let i = 0; i < 3; i++) both('first messages after a mass expiry', i === 1 ? OPS['deposit to an account'] : i === 2 ? OPS['approval'] : OPS['transfer']);
    return w;
  }
  const labels = Object.keys(OPS);
  for (const s of [a, b]) s.can.time += BigInt(r.pick([1, 1000, 60])) * SEC;
  for (const l of labels) both(l, OPS[l]);
  if (v % 3 === 1) { for (const s of [a, b]) { for (const id of [...s.open]) s.answer(id, okDeposit()); s.can.upgrade(did.encode([], [])); s.can.time += SEC; s.xfer(acc(C), acc(C), 0n); } for (const l of labels) both(l, OPS[l]); }
  return w;
}

// Heap memory: once warm, thousands of further messages of all kinds must not make it grow.
export function memory(mk, r, v, rounds) {
  const s = new Side(mk, 'memory', 150, { seed: r.bytes(4), expire: v % 2 === 1, instants: 7 }), w = s.w, mon = w.monitors.find((m) => m.prop === 'C31'); if (!mon) return w;
  let n = 0, steps = 0; const far = (k) => acc('00000000000000' + (k % 60000 + 4096).toString(16).padStart(4, '0') + '0101');
  const round = (k) => {
    const a = acc(A), c = acc(C), id = (x) => x.ids[0], i = k % 150; s.can.time += BigInt(r.int(90)) * SEC; n += 14;
    s.call('deposit', { to: c, memo: null }, B, 60n * FEE); s.xfer(a, c, FEE, { cat: s.now }); s.xfer(a, c, FEE, { cat: s.now }); s.xfer(c, who(i), FEE, { memo: 'aa'.repeat(k % 33) });
    s.appr(c, v % 2 ? far(k) : who(i), k % 5 ? BigInt(k) : 0n, { exp: k % 3 ? s.now + 200n * SEC : null }); s.appr(c, acc(B), 30n * FEE); s.xfrom(acc(B), c, far(k), FEE); s.xfrom(who(1), c, a, FEE);
    s.answer(id(s.wd(c, 3n * FEE)), k % 2 ? okDeposit() : rej(5, 'no', 3n * FEE)); s.answer(id(s.wdf(acc(B), c, 4n * FEE)), k % 3 ? rej(4, 'no', 4n * FEE) : okDeposit()); s.answer(id(s.cc(c, 5n * FEE, { cat: s.now })), cmcOk(TARGET)); s.answer(id(s.ccf(acc(B), c, 5n * FEE)), k % 2 ? cmcRefunded(4n * FEE, 'no') : cmcOk(TARGET));
    steps += s.can.work.steps; s.xfer(c, a, 1n << 90n); s.call('icrc1_transfer', { from_subaccount: null, to: a, amount: 1n, fee: 7n, memo: null, created_at_time: null }, B);
  };
  const pages = () => [s.can.mem.buffer.byteLength / 65536, s.can.stable.size];
  for (let k = 0; k < 500; k++) round(k);
  const p0 = pages(), l0 = n; for (let k = 0; k < rounds && steps < 3e8; k++) round(500 + k);
  mon.memory(w, { before: p0, after: pages(), messages: n - l0, lapse: v % 2 === 1 });
  return w;
}
