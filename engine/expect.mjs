// What the published interface says about one call: the normalized operation, and the set
// of reasons for which the ledger may (and must) refuse it, given observed state.
import { FEE, U128, U64, WINDOW, DRIFT, MGMT, CREATE_MEMO, akey, pkey, acc, sameAcc, txKeyRaw, txKeySoft } from './ledger.mjs';
import { withdrawMemo } from './icrc3.mjs';

export const MUTATING = ['deposit', 'icrc1_transfer', 'icrc2_transfer_from', 'icrc2_approve', 'withdraw', 'withdraw_from', 'create_canister', 'create_canister_from'];
export function normalize(method, a, caller, sent) {
  switch (method) {
    case 'deposit': return { kind: 'deposit', to: a.to, memo: a.memo ?? null, from: null, spender: null, cat: null, fee: null, sent };
    case 'icrc1_transfer': return { kind: 'transfer', from: acc(caller, a.from_subaccount ?? null), to: a.to, spender: null, amount: a.amount, fee: a.fee ?? null, memo: a.memo ?? null, cat: a.created_at_time ?? null };
    case 'icrc2_transfer_from': return { kind: 'transfer', from: a.from, to: a.to, spender: acc(caller, a.spender_subaccount ?? null), amount: a.amount, fee: a.fee ?? null, memo: a.memo ?? null, cat: a.created_at_time ?? null };
    case 'icrc2_approve': return { kind: 'approve', from: acc(caller, a.from_subaccount ?? null), spender: a.spender, amount: a.amount, fee: a.fee ?? null, memo: a.memo ?? null, cat: a.created_at_time ?? null, expected: a.expected_allowance ?? null, expires: a.expires_at ?? null };
    case 'withdraw': return { kind: 'withdraw', from: acc(caller, a.from_subaccount ?? null), spender: null, amount: a.amount, target: a.to, cat: a.created_at_time ?? null, fee: null, memo: null };
    case 'withdraw_from': return { kind: 'withdraw', from: a.from, spender: acc(caller, a.spender_subaccount ?? null), amount: a.amount, target: a.to, cat: a.created_at_time ?? null, fee: null, memo: null };
    case 'create_canister': return { kind: 'create', from: acc(caller, a.from_subaccount ?? null), spender: null, amount: a.amount, cat: a.created_at_time ?? null, fee: null, memo: null, creation: a.creation_args ?? null };
    case 'create_canister_from': return { kind: 'create', from: a.from, spender: acc(caller, a.spender_subaccount ?? null), amount: a.amount, cat: a.created_at_time ?? null, fee: null, memo: null, creation: a.creation_args ?? null };
    default: return null;
  }
}
// the transaction a call asks for, in block vocabulary (null if it cannot be recorded)
export function txOf(n) {
  const big = (x) => x !== null && x !== undefined && x > U128;
  if (n.kind === 'deposit') return { op: 'mint', to: n.to, from: null, spender: null, amt: n.sent - FEE, txfee: FEE, memo: n.memo, cat: null, expected: null, expires: null };
  if (n.kind === 'approve') { if (big(n.fee) || big(n.expected)) return null; return { op: 'approve', from: n.from, to: null, spender: n.spender, amt: n.amount > U128 ? U128 : n.amount, txfee: n.fee, memo: n.memo, cat: n.cat, expected: n.expected, expires: n.expires }; }
  if (big(n.amount) || big(n.fee)) return null;
  if (n.kind === 'transfer') return { op: 'xfer', from: n.from, to: n.to, spender: n.spender, amt: n.amount, txfee: n.fee, memo: n.memo, cat: n.cat, expected: null, expires: null };
  return { op: 'burn', from: n.from, to: null, spender: n.spender, amt: n.amount, txfee: null, memo: n.kind === 'withdraw' ? withdrawMemo(n.target) : CREATE_MEMO, cat: n.cat, expected: null, expires: null };
}
export const isSelfAuth = (p) => p.length === 58 && p.endsWith('02');
export const usesAllowance = (n) => n.spender && n.kind !== 'approve' && !sameAcc(n.spender, n.from);

// Reasons that apply to starting `op` at time t, in state `pre`.
export function reasons(w, seg) {
  const op = seg.op, n = op.n, t = seg.t, R = new Map();
  const pre = seg.pre;
  if (n.kind === 'deposit') {
    if (op.sent <= FEE) R.set('DepositTooSmall', true);
    if (n.memo !== null && n.memo.length > 64) R.set('Memo', true);
    return R;
  }
  if (n.memo !== null && n.memo.length > 64) R.set('Memo', true);
  if (n.kind === 'approve' && n.from.owner === n.spender.owner) R.set('SelfApproval', true);
  if (n.kind === 'transfer' || n.kind === 'approve') if ([n.from, n.to, n.spender].some((x) => x && x.owner === MGMT)) R.set('Denied', true);
  if (n.fee !== null && n.fee !== FEE) R.set('BadFee', true);
  const bal = pre.bal.get(akey(n.from));
  const need = n.kind === 'approve' ? FEE : n.amount + FEE;
  if (bal !== undefined && bal < need) R.set('InsufficientFunds', bal);
  if (n.kind === 'approve') {
    const cur = pre.alw.get(pkey(n.from, n.spender));
    if (n.expected !== null && cur && cur.a !== n.expected) R.set('AllowanceChanged', cur.a);
    if (n.expected !== null && !cur) R.set('AllowanceUnknown', true);
    if (n.expires !== null && n.expires <= t) R.set('Expired', t);
  }
  if (usesAllowance(n)) {
    const cur = pre.alw.get(pkey(n.from, n.spender));
    if (cur === undefined) R.set('AllowanceUnknown', true);
    else if (cur.a < need) R.set('InsufficientAllowance', cur.a);
  }
  if (n.kind === 'withdraw') { if (isSelfAuth(n.target)) R.set('InvalidReceiver', n.target); if (n.amount === 0n) R.set('Zero', true); }
  if (n.cat !== null) {
    if (n.cat + WINDOW + DRIFT < t) R.set('TooOld', true);
    if (n.cat > t + DRIFT) R.set('CreatedInFuture', t);
    const tx = txOf(n);
    if (tx) {
      const d = w.dedup.find(tx, seg);
      if (d.exact !== null) R.set('Duplicate', d.exact);
      else if (d.soft !== null) R.set('DuplicateSoft', d.soft);
    }
  }
  return R;
}

// classify the answer of a start segment
export function outcome(seg) {
  if (seg.trap) return { k: 'Trap', msg: seg.trap.msg, kind: seg.trap.kind };
  const r = seg.result;
  if (r === undefined) return { k: 'Pending' };
  if (r === null) return { k: 'Ok' };
  if (r.reject) return { k: 'Reject', msg: r.reject.msg };
  if (r.undecodable) return { k: 'Undecodable', msg: r.undecodable };
  if ('Ok' in r) return { k: 'Ok', p: r.Ok };
  if ('Err' in r) {
    const tag = Object.keys(r.Err)[0], p = r.Err[tag];
    if (tag === 'GenericError') {
      const c = p.error_code;
      return { k: c === 100001n ? 'Denied' : c === 100002n ? 'Zero' : c === 100003n ? 'ExpiredApproval' : 'Generic', p, tag };
    }
    if (tag.startsWith('FailedTo')) return { k: 'Failed', p, tag };
    return { k: tag, p, tag };
  }
  return { k: 'Ok', p: r };
}
export const accepted = (o) => o.k === 'Ok' || o.k === 'Pending' || o.k === 'Failed';

// index of recorded transactions that carry a creation time, as of each segment
export class DedupIndex {
  constructor() { this.raw = new Map(); this.soft = new Map(); this.n = 0; }
  // called after monitors ran: blocks of the segment become part of the history
  absorb(chain) { for (; this.n < chain.length; this.n++) { const b = chain[this.n]; if (b.err.length || b.cat === null) continue; this.raw.set(txKeyRaw(b), b); const k = txKeySoft(b); if (!this.soft.has(k)) this.soft.set(k, []); this.soft.get(k).push(b); } }
  find(tx) { const r = this.raw.get(txKeyRaw(tx)), s = this.soft.get(txKeySoft(tx)); return { exact: r ? r : null, soft: s ? s : null }; }
}
