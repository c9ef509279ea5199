// C16 withdraw settlement, C17 canister creation settlement, C18 approval refunds
import { Mon, magn } from './base.mjs';
import { FEE, MGMT, CMC, akey, pkey, rawAcc, sameAcc, unkey } from '../engine/ledger.mjs';
import { outcome, accepted, usesAllowance } from '../engine/expect.mjs';
import { expectSettle } from './settlespec.mjs';
import { sameTx } from './state.mjs';
import { mgmtDid, cmcDid } from '../engine/world.mjs';
import { hex } from '../engine/candid.mjs';

const showTx = (b) => b && { op: b.op, from: rawAcc(b.from), to: rawAcc(b.to), spender: rawAcc(b.spender), amt: b.amt, fee: b.txfee, memo: b.memo, expires: b.expires };
const canon = (v) => JSON.stringify(v, (k, x) => typeof x === 'bigint' ? x.toString() + 'n' : x === undefined ? null : x && typeof x === 'object' && !Array.isArray(x) ? Object.fromEntries(Object.keys(x).sort().map((y) => [y, x[y] === undefined ? null : x[y]])) : x);

class Settle extends Mon {
  constructor(prop, kind) { super(prop); this.kind = kind; this.hist = new Map(); }
  onSegment(w, s) {
    const op = s.op; if (op && op.n && op.n.kind === this.kind) {
      if (s.kind === 'update') this.start(w, s); else if (s.kind === 'callback') this.back(w, s);
    }
    // what else happened while operations of this kind were in flight
    for (const { op: o } of w.inflight.values()) if (o.n && o.n.kind === this.kind && o !== op) this.hist.set(o, (this.hist.get(o) ?? '') + (s.kind === 'update' ? s.method[0] + s.method.at(-1) : s.kind[0]));
  }
  start(w, s) {
    const op = s.op, n = op.n, o = outcome(s);
    if (!accepted(o)) { if (s.attempts.length) this.bad(w, 'a refused operation still called out', s.attempts); return; }
    const burn = s.blocks[0];
    if (!burn || burn.op !== 'burn' || akey(burn.from ?? { owner: '?' }) !== akey(n.from) || burn.amt !== n.amount) return this.bad(w, 'an accepted operation did not first burn the amount from the named account', { block: showTx(burn), args: op.args });
    if ((burn.spender ? akey(burn.spender) : null) !== (n.spender ? akey(n.spender) : null)) this.bad(w, 'the burn does not name the spender', showTx(burn));
    const was = s.pre.bal.get(akey(n.from)), now = s.post.bal.get(akey(n.from));
    if (o.k === 'Pending') {
      if (was - now !== n.amount + FEE) this.bad(w, 'the burned amount plus fee was not charged once', { before: was, after: now, amount: n.amount });
      if (s.calls.length !== 1) return this.bad(w, 'an accepted operation must send exactly one call', s.calls.map((c) => c.method));
      const c = s.calls[0]; this.outgoing(w, s, c);
      if (c.cycles !== n.amount) this.bad(w, 'the call carries a different number of cycles than burned', { attached: c.cycles, amount: n.amount });
      if (c.bestEffort !== null) this.bad(w, 'the call may time out while its cycles are delivered (no guaranteed response)', {});
      if (op.ctx.responded) this.bad(w, 'answered before the outcome is known', op.result);
    } else if (o.k === 'Failed') {
      if (!op.faults) this.bad(w, 'reported a failed call although nothing failed', o);
      else this.settled(w, s);
    } else this.bad(w, 'reported success before the call was answered', o);
  }
  back(w, s) {
    if (s.trap) return this.bad(w, 'processing the answer trapped', s.trap);
    if (s.calls.length) return this.bad(w, 'a second call was sent', s.calls.map((c) => c.method));
    this.settled(w, s);
  }
  settled(w, s) {
    const op = s.op, n = op.n, ex = expectSettle(w, s), got = op.result;
    const start = op.blocks[0] && op.blocks[0].id;
    const fresh = s.kind === 'update' ? s.blocks.slice(1) : s.blocks;
    const ctx = { answer: s.resp ? { label: s.resp.label, code: s.resp.code, refunded: s.resp.refunded } : 'call could not be sent', amount: n.amount, got, blocks: fresh.map(showTx) };
    if (!op.done) return this.bad(w, 'no answer after the outcome is known', ctx);
    // funds: everything that was returned comes back, less the fees of the refund blocks
    const credit = fresh.filter((b) => b.op === 'mint'); const want = ex.blocks.filter((b) => b.op === 'mint');
    if (credit.length !== want.length) return this.bad(w, ex.refund ? 'a failed operation was not refunded' : ex.failed ? 'refunded more than was returned' : 'a successful operation was refunded', ctx);
    if (want.length) { const f = sameTx(credit[0], want[0]); if (f) return this.bad(w, 'the refund misstates ' + f, { ...ctx, want: showTx(want[0]) }); }
    if (s.kind === 'callback') {
      const was = s.pre.bal.get(akey(n.from)) ?? 0n, now = s.post.bal.get(akey(n.from));
      let d = 0n; for (const b of ex.blocks) d += b.op === 'mint' ? b.amt : -FEE;
      if (now - was !== d) this.bad(w, 'the account was not made whole by exactly the returned cycles less fees', { ...ctx, before: was, after: now, expected: d });
      for (const [k, v] of s.post.bal) if (k !== akey(n.from) && v !== (s.pre.bal.get(k) ?? 0n)) this.bad(w, 'the settlement touched another account', { ...ctx, account: k });
    }
    // answer
    const mint = credit[0] ? credit[0].id : null; const ap = fresh.filter((b) => b.op === 'approve')[0]; const apId = ap ? ap.id : null;
    let expect; const isFrom = op.method.endsWith('_from');
    const code = ex.code && { [ex.code]: null };
    const msg = ex.msg;
    const e = got && got.Err && Object.values(got.Err)[0];
    if (!ex.failed) expect = n.kind === 'create' ? { Ok: { block_id: start, canister_id: ex.canister } } : { Ok: start };
    else if (op.method === 'withdraw') expect = { Err: { FailedToWithdraw: { fee_block: mint, rejection_code: code, rejection_reason: msg ?? (e && e.rejection_reason) } } };
    else if (op.method === 'withdraw_from') expect = { Err: { FailedToWithdrawFrom: { withdraw_from_block: start, refund_block: mint, approval_refund_block: apId, rejection_code: code, rejection_reason: msg ?? (e && e.rejection_reason) } } };
    else if (op.method === 'create_canister') expect = { Err: { FailedToCreate: { fee_block: start, refund_block: mint, error: msg ?? (e && e.error) } } };
    else expect = { Err: { FailedToCreateFrom: { create_from_block: start, refund_block: mint, approval_refund_block: apId, rejection_code: code, rejection_reason: msg ?? (e && e.rejection_reason) } } };
    if (canon(got) !== canon(expect)) this.bad(w, 'the answer does not report what happened', { ...ctx, want: expect });
    const h = this.hist.get(op) ?? ''; this.hist.delete(op);
    this.tally('answers:' + (s.resp ? s.resp.label : 'unsent'));
    this.ev([op.method, s.resp ? s.resp.label : 'unsent', magn(n.amount), magn(ex.returned), ex.refund, ex.approval, h.slice(-12)].join(':'), () => ({ call: op.method, amount: n.amount, answer: s.resp ? s.resp.label : 'unsent', meanwhile: h, result: got }));
  }
}
export class Withdraw extends Settle {
  constructor() { super('C16', 'withdraw'); }
  outgoing(w, s, c) {
    if (c.callee !== MGMT || c.method !== 'deposit_cycles') return this.bad(w, 'withdrawn cycles go somewhere else than deposit_cycles', { callee: c.callee, method: c.method });
    let a; try { a = mgmtDid.decode(mgmtDid.service.deposit_cycles.args, c.arg)[0]; } catch (e) { return this.bad(w, 'undecodable deposit_cycles argument', hex(c.arg)); }
    if (a.canister_id !== s.op.n.target) this.bad(w, 'cycles are sent to another canister than requested', { sent: a.canister_id, asked: s.op.n.target });
  }
}
export class Create extends Settle {
  constructor() { super('C17', 'create'); }
  outgoing(w, s, c) {
    const op = s.op, n = op.n;
    if (c.callee !== CMC || c.method !== 'create_canister') return this.bad(w, 'the creation request goes somewhere else', { callee: c.callee, method: c.method });
    let a; try { a = cmcDid.decode(cmcDid.service.create_canister.args, c.arg)[0]; } catch (e) { return this.bad(w, 'undecodable create_canister argument', String(e)); }
    const want = { settings: null, subnet_selection: null };
    const cr = n.creation;
    const st = cr && cr.settings ? { ...cr.settings } : {};
    if (st.controllers === null || st.controllers === undefined) st.controllers = [op.caller];
    want.settings = st; want.subnet_selection = (cr && cr.subnet_selection) ?? null;
    const norm = (x) => canon(x && { settings: x.settings && Object.fromEntries(Object.entries(x.settings).filter(([, v]) => v !== null && v !== undefined)), subnet_selection: x.subnet_selection ?? null });
    if (norm(a) !== norm(want)) this.bad(w, 'the creation request does not carry the settings asked for (or the caller as controller)', { sent: a, asked: want, caller: op.caller });
  }
}
// the allowance spent by a failed *_from call comes back
export class ApprovalRefund extends Mon {
  constructor() { super('C18'); }
  onSegment(w, s) {
    const op = s.op; if (!op || !op.n || (op.n.kind !== 'withdraw' && op.n.kind !== 'create')) return;
    const sync = s.kind === 'update' && outcome(s).k === 'Failed';
    if (s.kind !== 'callback' && !sync) return;
    if (sync && !op.faults) return;
    const n = op.n, ex = expectSettle(w, s);
    if (s.trap) return this.bad(w, 'settling a failed call trapped, so neither funds nor approval came back', s.trap);
    const got = (sync ? s.blocks.slice(1) : s.blocks).filter((b) => b.op === 'approve'), want = ex.blocks.filter((b) => b.op === 'approve');
    const ctx = { call: op.method, amount: n.amount, returned: ex.returned, grantBefore: op.foldPre && op.foldPre.alw, allowanceNow: s.foldAlw, now: s.t, blocks: got.map(showTx), want: want.map(showTx) };
    if (got.length !== want.length) return this.bad(w, want.length ? 'the spent allowance was not restored' : 'an allowance was granted that should not be restored', ctx);
    if (want.length) {
      const f = sameTx(got[0], want[0]); if (f) this.bad(w, 'the restored allowance misstates ' + f, ctx);
      const v = s.post.alw.get(pkey(n.from, n.spender));
      if (v && (v.a !== want[0].amt || v.e !== want[0].expires)) this.bad(w, 'the restored allowance is not in force', { ...ctx, reported: v });
      if (got[0].fee !== FEE) this.bad(w, 'the restored allowance was not charged its fee', ctx);
      if (op.method.endsWith('_from')) { const e = op.result && op.result.Err && Object.values(op.result.Err)[0]; if (!e || e.approval_refund_block !== got[0].id) this.bad(w, 'the answer does not name the approval refund block', { ...ctx, got: op.result }); }
    } else if (usesAllowance(n) && s.kind === 'callback') {
      const p = pkey(n.from, n.spender), a = s.pre.alw.get(p), b = s.post.alw.get(p);
      if (a && b && (a.a !== b.a || a.e !== b.e)) this.bad(w, 'an allowance changed without a refund block', { ...ctx, before: a, after: b });
    }
    if (n.spender) {
      const g = op.foldPre.alw, c = s.foldAlw;
      const st = (x) => !x ? 'none' : x.e === null ? 'perm' : x.e <= s.t ? 'expired' : 'live';
      this.ev([op.method, sameAcc(n.from, n.spender) ? 'own' : 'other', s.resp ? s.resp.label : 'unsent', magn(ex.returned), st(g), st(c), g && c && g.e === c.e ? 'same' : 'diff', c && g ? (c.a < g.a - n.amount - FEE ? 'less' : c.a > g.a - n.amount - FEE ? 'more' : 'rest') : ''].join(':'), () => ctx);
      this.tally(want.length ? 'restored' : 'not-restored');
    }
  }
}
