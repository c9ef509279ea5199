// C01 supply, C02 log replay, C03 receipts, C04 backing, C05 atomic rejection, C06 exact effects, C07 authorization
import { Mon, eqMap, eqAlw, magn } from './base.mjs';
import { akey, pkey, unpkey, acc, sameAcc, rawAcc, feeOf, FEE, U128 } from '../engine/ledger.mjs';
import { outcome, accepted, txOf, usesAllowance } from '../engine/expect.mjs';
import { expectSettle } from './settlespec.mjs';

const shape = (s) => s.kind + ':' + (s.method ?? '') + ':' + (s.op && s.kind === 'update' ? outcome(s).k : s.resp ? s.resp.label : s.trap ? 'trap' : '') + ':' + s.blocks.map((b) => b.op).join('+');
const supplyEffect = (b) => b.op === 'mint' ? b.amt : b.op === 'xfer' || b.op === 'approve' ? -feeOf(b) : -(b.amt + feeOf(b));

export class Supply extends Mon {
  constructor() { super('C01'); }
  onSegment(w, s) {
    let sum = 0n; for (const v of s.post.bal.values()) sum += v;
    if (w.accounts.size >= 400) for (const k of w.fold.bal.keys()) if (!s.post.bal.has(k)) return; // not every account is watched
    const sup = s.post.supply;
    if (typeof sup !== 'bigint') return this.bad(w, 'supply query failed', sup);
    if (sup !== sum) this.bad(w, 'total supply differs from the sum of all balances', { supply: sup, sum, after: shape(s) });
    if (sup !== w.fold.supply) this.bad(w, 'total supply differs from mints minus burns minus fees in the block log', { supply: sup, log: w.fold.supply, after: shape(s) });
    if (s.pre) { let d = 0n; for (const b of s.blocks) d += supplyEffect(b); if (sup - s.pre.supply !== d) this.bad(w, 'supply changed by an amount its blocks do not record', { before: s.pre.supply, after: sup, recorded: d }); }
    this.ev(s.blocks.length || s.trap ? shape(s) + ':' + (sum === 0n ? '0' : magn(sum)) + ':' + [...s.post.bal.values()].filter((v) => v > 0n).length : null, () => ({ step: shape(s), supply: String(sup), accounts: s.post.bal.size }));
  }
}

export class Replay extends Mon {
  constructor() { super('C02'); }
  onSegment(w, s) {
    if (w.fold.bad.length) { this.bad(w, 'the block log replays to an impossible state', w.fold.bad); return; }
    if (BigInt(w.chain.length) !== s.post.len && w.maxBlocks > 0n) this.bad(w, 'blocks announced but not served', { len: s.post.len, got: w.chain.length });
    if (w.maxBlocks === 0n && BigInt(w.chain.length) !== s.post.len) return;
    for (const [k, v] of s.post.bal) { const f = w.fold.bal.get(k) ?? 0n; if (f !== v) return this.bad(w, 'balance differs from the replay of the block log', { account: k, reported: v, replay: f, after: shape(s) }); }
    for (const [k, v] of s.post.alw) { const f = w.fold.allowance(k, s.t); if (f.a !== v.a || f.e !== v.e) return this.bad(w, 'allowance differs from the replay of the block log', { pair: k, reported: v, replay: f, now: s.t, after: shape(s) }); }
    this.ev(s.blocks.length ? shape(s) + ':' + w.fold.bal.size + ':' + w.fold.alw.size : s.kind === 'time' || s.kind === 'upgrade' ? s.kind + w.fold.alw.size : null, () => ({ step: shape(s), blocks: w.chain.length, balances: w.fold.bal.size, allowances: w.fold.alw.size }));
  }
}

const txFields = ['op', 'from', 'to', 'spender', 'amt', 'txfee', 'memo', 'cat', 'expected', 'expires'];
const show = (b) => b && Object.fromEntries([...txFields, 'fee', 'ts'].map((k) => [k, k === 'from' || k === 'to' || k === 'spender' ? rawAcc(b[k]) : b[k]]));
export function sameTx(b, tx) {
  for (const k of txFields) {
    if (k === 'from' || k === 'to' || k === 'spender') { if (rawAcc(b[k]) !== rawAcc(tx[k])) return k; } else if (k === 'txfee' && b.op === 'burn') continue;
    else if ((b[k] ?? null) !== (tx[k] ?? null)) return k;
  }
  return null;
}
export const wantFee = (tx) => tx.op === 'mint' ? 0n : tx.op === 'burn' ? FEE : tx.txfee === null ? FEE : null;
export class Receipts extends Mon {
  constructor() { super('C03'); }
  // the receipts handed out at the end of an asynchronous operation name the blocks of this very operation
  named(w, op, fresh) {
    const r = op.result, own = op.blocks[0] ? op.blocks[0].id : null, first = (k) => { const b = fresh.find((x) => x.op === k); return b ? b.id : null; };
    if (!op.done || !r) return;
    if (r.Ok !== undefined) { const idx = op.n.kind === 'create' ? r.Ok.block_id : r.Ok; if (idx !== own) this.bad(w, 'receipt index is not the index of the recorded block', { receipt: idx, block: own }); }
    const e = r.Err && Object.entries(r.Err)[0]; if (!e || !e[1] || typeof e[1] !== 'object') return;
    for (const [k, want] of [['withdraw_from_block', own], ['create_from_block', own], ['refund_block', first('mint')], ['approval_refund_block', first('approve')], ['fee_block', e[0] === 'FailedToWithdraw' ? first('mint') : own]]) if (k in e[1] && (e[1][k] ?? null) !== want) this.bad(w, 'a failed operation names the wrong ' + k, { named: e[1][k], want });
  }
  onSegment(w, s) {
    if (s.kind === 'time' || s.kind === 'upgrade') { if (s.blocks.length || s.post.len !== s.pre.len) this.bad(w, 'blocks appeared without an operation', s.blocks.map(show)); return; }
    if (s.kind === 'install' || s.kind === 'bulk') return;
    const op = s.op;
    for (const b of s.blocks) if (b.ts !== s.t) this.bad(w, 'block timestamp is not the ledger time', { ts: b.ts, now: s.t });
    if (s.kind === 'callback') {
      const ex = expectSettle(w, s);
      if (ex.blocks.length !== s.blocks.length) return this.bad(w, 'the settlement of an asynchronous operation recorded the wrong blocks', { want: ex.blocks.map(show), got: s.blocks.map(show) });
      ex.blocks.forEach((t, i) => { const f = sameTx(s.blocks[i], t); if (f) this.bad(w, 'settlement block misstates ' + f, { want: show(t), got: show(s.blocks[i]) }); });
      this.named(w, op, s.blocks);
      this.ev('settle:' + shape(s)); return;
    }
    if (!op.n) { if (s.blocks.length) this.bad(w, 'a malformed call recorded blocks', s.blocks.map(show)); return; }
    const o = outcome(s);
    if (!accepted(o)) { if (s.blocks.length) this.bad(w, 'a refused call recorded a block', { outcome: o, blocks: s.blocks.map(show) }); this.ev(null); return; }
    const sync = s.kind === 'update' && o.k === 'Failed' ? expectSettle(w, s).blocks : [];
    if (s.blocks.length !== 1 + sync.length) return this.bad(w, 'an accepted call must record exactly one block (plus its settlement)', { outcome: o, got: s.blocks.map(show) });
    const tx = txOf(op.n); const b = s.blocks[0];
    if (!tx) return this.bad(w, 'a call whose amounts cannot be recorded was accepted', { args: op.args, outcome: o });
    const f = sameTx(b, tx); if (f) this.bad(w, 'block misstates ' + f, { want: show(tx), got: show(b) });
    if (b.fee !== wantFee(tx)) this.bad(w, 'block states the wrong fee', { want: wantFee(tx), got: b.fee });
    if (o.k === 'Ok') { const idx = op.n.kind === 'deposit' ? o.p.block_index : op.n.kind === 'create' ? o.p.block_id : o.p; if (idx !== b.id) this.bad(w, 'receipt index is not the index of the recorded block', { receipt: idx, block: b.id }); }
    if (o.k === 'Failed') this.named(w, op, s.blocks.slice(1));
    if (b.id !== s.pre.len) this.bad(w, 'block is not appended at the end', { id: b.id, len: s.pre.len });
    this.ev([op.method, rawAcc(op.n.from).endsWith('none'), op.n.to ? rawAcc(op.n.to).endsWith('none') : '', op.n.spender ? rawAcc(op.n.spender).endsWith('none') : '', op.n.fee !== null, op.n.memo === null ? 'n' : op.n.memo.length, op.n.cat !== null, op.n.expected !== undefined && op.n.expected !== null, op.n.expires !== undefined && op.n.expires !== null, magn(op.n.amount)].join(','), () => ({ call: op.method, block: show(b) }));
  }
}

export class Backing extends Mon {
  constructor() { super('C04'); }
  onSegment(w, s) {
    if (s.kind === 'install') { return; }
    const gap = (o) => o.cycles - o.supply;
    const d = gap(s.post) - gap(s.pre);
    if (d < 0n) this.bad(w, 'cycles held by the ledger fell relative to the supply they back', { before: { cycles: s.pre.cycles, supply: s.pre.supply }, after: { cycles: s.post.cycles, supply: s.post.supply }, step: shape(s), resp: s.resp && { ...s.resp, data: undefined } });
    if (s.burned) this.bad(w, 'the ledger burned cycles it holds for depositors', s.burned);
    let out = 0n; for (const c of s.calls) out += c.cycles;
    if (out > 0n) {
      let paid = 0n; for (const b of s.blocks) if (b.op === 'burn') paid += b.amt;
      if (out > paid) this.bad(w, 'cycles left the ledger without an equal burn', { out, burned: paid, step: shape(s) });
    }
    if (s.kind === 'update') {
      const net = s.post.cycles - s.pre.cycles;
      const acc = s.trap ? 0n : s.accepted;
      if (net !== acc - out) this.bad(w, 'cycles balance moved by other means than accepted deposits and attached calls', { net, accepted: acc, out });
      if (s.trap && s.op.ctx.refund !== s.op.sent) this.bad(w, 'a trapped call kept attached cycles', { sent: s.op.sent, refund: s.op.ctx.refund });
    }
    this.ev(out > 0n || s.accepted > 0n || s.resp ? shape(s) + ':' + magn(d) + ':' + magn(out) : null, () => ({ step: shape(s), cycles: String(s.post.cycles), supply: String(s.post.supply), gained: String(d) }));
  }
}

export class Atomic extends Mon {
  constructor() { super('C05'); }
  onSegment(w, s) {
    if (s.kind === 'install') return;
    let why = null;
    if (s.kind === 'time') why = 'the passage of time';
    else if (s.kind === 'update') { if (s.trap) why = 'a trapped call'; else if (!s.op.n) why = s.result && s.result.reject ? 'a malformed call' : null; else if (!accepted(outcome(s))) why = 'a refused call'; }
    if (!why) return;
    const { pre, post } = s;
    const k = eqMap(pre.bal, post.bal);
    if (k) this.bad(w, why + ' changed a balance', { account: k, before: pre.bal.get(k), after: post.bal.get(k), step: shape(s) });
    if (pre.supply !== post.supply) this.bad(w, why + ' changed the supply', { before: pre.supply, after: post.supply });
    if (pre.len !== post.len) this.bad(w, why + ' changed the block log', { before: pre.len, after: post.len });
    if (pre.cycles !== post.cycles) this.bad(w, why + ' changed the cycles balance', { before: pre.cycles, after: post.cycles });
    if (pre.certified !== post.certified) this.bad(w, why + ' changed the certified data', { before: pre.certified, after: post.certified });
    if (s.kind === 'update') {
      for (const [p, v] of pre.alw) if (!eqAlw(v, post.alw.get(p))) this.bad(w, why + ' changed an allowance', { pair: p, before: v, after: post.alw.get(p) });
      if (pre.metrics && post.metrics) for (const m of ['number_of_transaction_hashes', 'number_of_transaction_timestamps']) if (post.metrics[m] !== pre.metrics[m]) this.bad(w, why + (post.metrics[m] > pre.metrics[m] ? ' was remembered as a processed transaction' : ' made the ledger forget transactions'), { table: m, before: pre.metrics[m], after: post.metrics[m] });
      if (s.calls.length || s.attempts.length) this.bad(w, why + ' sent calls to other canisters', s.calls.map((c) => c.method));
      if (s.op.ctx.refund !== s.op.sent) this.bad(w, why + ' kept attached cycles', { sent: s.op.sent, refund: s.op.ctx.refund });
    }
    this.ev(s.kind === 'update' ? shape(s) + ':' + (s.trap ? s.trap.msg.slice(0, 40).replace(/\d+/g, '#') : '') + ':' + magn(s.op.n && s.op.n.amount) + ':' + w.inflight.size : null, () => ({ call: s.op.method, outcome: outcome(s).k }));
  }
}

// what an accepted step must do to every balance
export class Effects extends Mon {
  constructor() { super('C06'); }
  onSegment(w, s) {
    if (s.kind === 'install' || s.kind === 'time' || s.kind === 'bulk') return;
    const d = new Map(); const add = (a, v) => d.set(akey(a), (d.get(akey(a)) ?? 0n) + v);
    if (s.kind === 'update' && s.op.n) {
      const n = s.op.n, o = outcome(s);
      if (accepted(o)) {
        if (n.kind === 'deposit') add(n.to, s.op.sent - FEE);
        else if (n.kind === 'approve') add(n.from, -FEE);
        else { add(n.from, -(n.amount + FEE)); if (n.kind === 'transfer') add(n.to, n.amount); if (o.k === 'Failed') for (const b of expectSettle(w, s).blocks) add(b.op === 'mint' ? b.to : b.from, b.op === 'mint' ? b.amt : -FEE); }
      }
    } else if (s.kind === 'callback') for (const b of expectSettle(w, s).blocks) add(b.op === 'mint' ? b.to : b.from, b.op === 'mint' ? b.amt : -FEE);
    for (const [k, v] of s.post.bal) {
      const was = s.pre.bal.get(k) ?? 0n, want = was + (d.get(k) ?? 0n);
      if (v !== want) return this.bad(w, 'an operation changed a balance by the wrong amount', { account: k, before: was, after: v, expected: want, step: shape(s), args: s.op && s.op.args });
    }
    const n = s.op && s.op.n;
    this.ev(d.size || s.kind === 'upgrade' ? [shape(s), n && magn(n.amount), n && n.to ? (sameAcc(n.from ?? acc('x'), n.to) ? 'self' : 'other') : '', n && n.spender ? (n.from && sameAcc(n.spender, n.from) ? 'own' : n.to && sameAcc(n.spender, n.to) ? 'toself' : 'sp') : '', n && n.from && s.post.bal.get(akey(n.from)) === 0n ? 'drained' : ''].join(':') : null, () => ({ step: shape(s), args: s.op && s.op.args, changes: Object.fromEntries([...d].map(([k, v]) => [k, String(v)])) }));
  }
}

export class Authz extends Mon {
  constructor() { super('C07'); }
  onSegment(w, s) {
    if (s.kind === 'install' || s.kind === 'bulk') return;
    const op = s.op, n = op && op.n;
    // 1. balances only fall for an account the caller owns or may spend from
    for (const [k, v] of s.post.bal) {
      const was = s.pre.bal.get(k); if (was === undefined || v >= was) continue;
      const why = { account: k, before: was, after: v, caller: op && op.caller, step: shape(s) };
      if (s.kind !== 'update' || !n) { this.bad(w, 'a balance fell without a call by its owner or an approved spender', why); continue; }
      if (k.split('/')[0] === op.caller) { if (n.from && akey(n.from) === k) continue; this.bad(w, 'a call took funds from another account of the caller than the one named', why); continue; }
      if (!n.from || akey(n.from) !== k || !n.spender) { this.bad(w, 'a call took funds from an account that is not the caller\'s', why); continue; }
      if (n.spender.owner !== op.caller) { this.bad(w, 'a spender account of someone else was used', why); continue; }
      const g = op.foldPre && op.foldPre.alw; const live = g && !(g.e !== null && g.e <= s.t);
      if (!live || g.a < was - v) this.bad(w, 'a spender took more than the owner approved', { ...why, approved: g, now: s.t });
    }
    // 2. approvals only change by the owner, by being spent by the spender, or by the refund of the spender's own failed call
    for (const [p, v] of s.post.alw) {
      const was = s.pre.alw.get(p); if (!was || eqAlw(was, v)) continue;
      if (was.e !== null && was.e <= s.t && v.a === 0n) continue;
      const [f, sp] = unpkey(p); const why = { pair: p, before: was, after: v, caller: op && op.caller, step: shape(s) };
      if (s.kind === 'update' && n) {
        if (n.kind === 'approve' && pkey(n.from, n.spender) === p && f.owner === op.caller) continue;
        if (usesAllowance(n) && pkey(n.from, n.spender) === p && sp.owner === op.caller && (v.a <= was.a)) continue;
      } else if (s.kind === 'callback' && n && usesAllowance(n) && pkey(n.from, n.spender) === p && v.a >= was.a) continue;
      this.bad(w, 'an allowance changed without authority', why);
    }
    // 3. every block in the log carries the authority it acted under
    if (s.kind === 'update' && n) for (const b of s.blocks) {
      if (b.op === 'mint' || !b.from) continue;
      if (b.from.owner === op.caller) continue;
      if (b.op === 'approve' && b.memo === 'ff'.repeat(32) && outcome(s).k === 'Failed' && b.spender && b.spender.owner === op.caller) continue;
      if (b.op === 'approve' || !b.spender || b.spender.owner !== op.caller) this.bad(w, 'a block debits an account of a principal that neither called nor approved the caller', { caller: op.caller, block: show(b) });
    }
    if (n && s.kind === 'update') this.ev(n.spender || op.caller === '04' || n.from ? [op.method, outcome(s).k, op.caller === '04', n.from && n.from.owner === op.caller, n.spender && n.from ? (sameAcc(n.spender, n.from) ? 'same' : n.spender.owner === n.from.owner ? 'sibling' : 'other') : '', op.foldPre && op.foldPre.alw ? (op.foldPre.alw.e === null ? 'perm' : op.foldPre.alw.e <= s.t ? 'expired' : 'live') : 'none'].join(':') : null, () => ({ call: op.method, caller: op.caller, from: n.from && akey(n.from), outcome: outcome(s).k }));
    else this.ev(null);
  }
}
