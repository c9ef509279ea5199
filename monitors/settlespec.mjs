// How an asynchronous operation (withdraw / create canister) must be settled, given the
// operation, what it had spent, the answer of the other canister and the state now.
import { FEE, U128, REFUND_MEMO_W, REFUND_MEMO_C, akey } from '../engine/ledger.mjs';
import { usesAllowance } from '../engine/expect.mjs';

export const CODES = { 1: 'SysFatal', 2: 'SysTransient', 3: 'DestinationInvalid', 4: 'CanisterReject', 5: 'CanisterError', 6: 'Unknown' };

// {failed, returned, code, msg|null, blocks, refund (0/1), approval (0/1), canister}
export function expectSettle(w, s) {
  if (s._settle) return s._settle;
  const op = s.op, n = op.n;
  const r = { failed: false, returned: 0n, code: null, msg: null, blocks: [], refund: false, approval: false, canister: null };
  if (s.kind === 'update') { r.failed = true; r.returned = n.amount; r.code = 'SysTransient'; }
  else if (s.resp.kind === 'reject') { r.failed = true; r.returned = n.amount; r.code = CODES[s.resp.code] ?? 'Unknown'; r.msg = s.resp.msg; }
  else if (s.resp.label === 'garbage') { r.failed = true; r.returned = n.amount; r.code = 'CanisterError'; }
  else if (n.kind === 'create') {
    if (s.resp.label === 'created') r.canister = s.resp.canister;
    else if (s.resp.label === 'refunded') { r.failed = true; r.returned = s.resp.refunded; r.code = 'CanisterError'; r.msg = s.resp.msg; }
    else if (s.resp.label === 'refundfailed') { r.failed = true; r.returned = 0n; r.code = 'CanisterError'; r.msg = `create_error: ${s.resp.msgs[0]}, refund error: ${s.resp.msgs[1]}`; }
  }
  if (r.failed && r.returned > FEE) {
    r.refund = true;
    r.blocks.push({ op: 'mint', from: null, to: n.from, spender: null, amt: r.returned - FEE, txfee: 0n, memo: n.kind === 'create' ? REFUND_MEMO_C : REFUND_MEMO_W, cat: null, expected: null, expires: null });
    const grant = op.foldPre && op.foldPre.alw;
    if (usesAllowance(n) && r.returned > 2n * FEE && grant && (grant.e === null || s.t < grant.e)) {
      r.approval = true;
      let cur = s.foldAlw;
      if (s.kind === 'update' && grant) { const left = grant.a - n.amount - FEE; cur = left > 0n ? { a: left, e: grant.e } : null; }
      if (cur && cur.e !== null && cur.e <= s.t) cur = null;
      const amt = r.returned - 2n * FEE + (cur ? cur.a : 0n);
      r.blocks.push({ op: 'approve', from: n.from, to: null, spender: n.spender, amt: amt > U128 ? U128 : amt, txfee: null, memo: REFUND_MEMO_W, cat: null, expected: null, expires: cur ? cur.e : grant.e });
    }
  }
  return (s._settle = r);
}
// the answer the caller must get
export function expectAnswer(op, start, r, got) {
  const n = op.n;
  if (!r.failed) return n.kind === 'create' ? { Ok: { block_id: start, canister_id: r.canister } } : { Ok: start };
  const refund = r.refund ? null : undefined;
  return { refund };
}
