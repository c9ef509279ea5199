// C11 deduplication, C12 creation-time window, C13 fees, C14 funds, C15 deposits, C26 validation
import { Mon, rel, magn } from './base.mjs';
import { FEE, U128, U64, WINDOW, DRIFT, MGMT, akey, pkey, sameAcc, txKeyRaw, rawAcc } from '../engine/ledger.mjs';
import { outcome, accepted, reasons, txOf, usesAllowance, isSelfAuth } from '../engine/expect.mjs';
import { wantFee } from './state.mjs';

const tooOld = (n, t) => n.cat !== null && n.cat + WINDOW + DRIFT < t;
const future = (n, t) => n.cat !== null && n.cat > t + DRIFT;

export class Dedup extends Mon {
  constructor() { super('C11'); this.seen = new WeakMap(); }
  onSegment(w, s) {
    if (!this.seen.has(w)) this.seen.set(w, new Map());
    const seen = this.seen.get(w);
    for (const b of s.blocks) {
      if (b.err.length || b.cat === null) continue;
      const k = txKeyRaw(b), d = seen.get(k);
      if (d !== undefined) this.bad(w, 'the same transaction was executed twice', { first: d, second: b.id, tx: k });
      seen.set(k, b.id);
    }
    const n = s.op && s.op.n; if (s.kind !== 'update' || !n || n.kind === 'deposit') return;
    const o = outcome(s), tx = txOf(n);
    if (n.cat === null) { if (o.k === 'Duplicate') this.bad(w, 'a transaction without creation time was refused as a duplicate', { args: s.op.args, of: o.p }); this.ev(null); return; }
    const d = tx ? w.dedup.find(tx) : { exact: null, soft: null };
    const inWin = !tooOld(n, s.t) && !future(n, s.t);
    const ctx = { method: s.method, args: s.op.args, outcome: o, original: d.exact && { block: d.exact.id, at: d.exact.ts }, now: s.t };
    if (d.exact && inWin && o.k !== 'Duplicate') this.bad(w, 'a retry inside the window was not answered as a duplicate', ctx);
    if (o.k === 'Duplicate') {
      const cands = d.exact ? [d.exact] : d.soft ?? [];
      if (!cands.length) this.bad(w, 'a transaction that was never executed was refused as a duplicate', ctx);
      else if (!cands.some((b) => b.id === o.p.duplicate_of)) this.bad(w, 'Duplicate names the wrong block', ctx);
      if (n.kind === 'create' && cands.length) {
        const orig = w.opByBlock.get(Number(o.p.duplicate_of));
        const can = orig && orig.done && orig.result && orig.result.Ok ? orig.result.Ok.canister_id : null;
        if (orig && (o.p.canister_id ?? null) !== can) this.bad(w, 'Duplicate does not name the canister the original created', { ...ctx, want: can });
      }
    }
    if (!d.exact && !d.soft && accepted(o)) this.ev('fresh:' + s.method);
    if (d.exact || d.soft || o.k === 'Duplicate') {
      const orig = d.exact && w.opByBlock.get(d.exact.i);
      const age = d.exact ? s.t - d.exact.ts : 0n;
      this.ev([s.method, o.k, d.exact ? 'exact' : 'soft', inWin, tooOld(n, s.t + 1n) === tooOld(n, s.t) ? '' : 'edge', orig ? (orig.done ? 'done' : 'inflight') : '', w.upgrades ?? 0 ? 'up' : '', age === 0n ? '0' : age > 3600n * 1_000_000_000n ? 'h' : 's', (s.pre.bal.get(akey(n.from)) ?? 0n) >= (n.amount ?? 0n) + FEE].join(':'), () => ctx);
    }
  }
}

export class Window extends Mon {
  constructor() { super('C12'); }
  onSegment(w, s) {
    for (const b of s.blocks) if (b.cat !== null && !b.err.length) { if (tooOld(b, b.ts)) this.bad(w, 'the log holds a transaction older than the window', { cat: b.cat, ts: b.ts }); if (future(b, b.ts)) this.bad(w, 'the log holds a transaction created in the future', { cat: b.cat, ts: b.ts }); }
    const n = s.op && s.op.n; if (s.kind !== 'update' || !n || n.kind === 'deposit') return;
    const o = outcome(s), old = tooOld(n, s.t), fut = future(n, s.t), ctx = { method: s.method, created: n.cat, now: s.t, outcome: o };
    if (n.cat === null) { if (o.k === 'TooOld' || o.k === 'CreatedInFuture') this.bad(w, 'a transaction without creation time was refused for its time', ctx); return this.ev(null); }
    if (accepted(o) && old) this.bad(w, 'a transaction created before the window was accepted', ctx);
    if (accepted(o) && fut) this.bad(w, 'a transaction created too far in the future was accepted', ctx);
    if (o.k === 'TooOld' && !old) this.bad(w, 'a transaction inside the window was refused as too old', ctx);
    if (o.k === 'CreatedInFuture') { if (!fut) this.bad(w, 'a transaction inside the permitted drift was refused as in the future', ctx); if (o.p.ledger_time !== s.t) this.bad(w, 'CreatedInFuture reports a wrong ledger time', ctx); }
    const lo = s.t - WINDOW - DRIFT, hi = s.t + DRIFT;
    this.ev([s.method, o.k, n.cat < lo - 1n ? '<lo' : n.cat === lo - 1n ? 'lo-1' : n.cat === lo ? 'lo' : n.cat === lo + 1n ? 'lo+1' : n.cat < s.t ? 'past' : n.cat === s.t ? 'now' : n.cat < hi ? 'ahead' : n.cat === hi ? 'hi' : n.cat === hi + 1n ? 'hi+1' : '>hi'].join(':'), () => ctx);
  }
}

export class Fees extends Mon {
  constructor() { super('C13'); }
  onSegment(w, s) {
    const n = s.op && s.op.n; if (s.kind !== 'update' || !n) return;
    const o = outcome(s), ctx = { method: s.method, args: s.op.args, outcome: o };
    if (n.kind !== 'deposit') {
      const wrong = n.fee !== null && n.fee !== FEE;
      if (accepted(o) && wrong) this.bad(w, 'a wrong fee was accepted', ctx);
      if (o.k === 'BadFee') { if (!wrong) this.bad(w, 'the right fee was refused', ctx); if (o.p.expected_fee !== FEE) this.bad(w, 'BadFee names a wrong fee', ctx); }
      if (wrong && o.k === 'InsufficientFunds') this.bad(w, 'InsufficientFunds was reported although the fee is wrong', ctx);
    }
    if (accepted(o)) {
      const b = s.blocks[0]; const tx = txOf(n);
      if (b && tx) {
        if (b.fee !== wantFee(tx)) this.bad(w, 'the block states a wrong effective fee', { ...ctx, want: wantFee(tx), got: b.fee });
        if (b.op !== 'burn' && b.txfee !== tx.txfee) this.bad(w, 'the block misstates the fee the caller named', { ...ctx, want: tx.txfee, got: b.txfee });
      }
      if (n.from && o.k !== 'Failed') {
        const f = akey(n.from); let paid = (s.pre.bal.get(f) ?? 0n) - (s.post.bal.get(f) ?? 0n);
        if (n.kind === 'transfer') { if (!sameAcc(n.from, n.to)) paid -= n.amount; } else if (n.kind !== 'approve') paid -= n.amount;
        if (paid !== FEE) this.bad(w, 'the operation was charged another fee than the published one', { ...ctx, paid });
        if (n.kind === 'transfer' || n.kind === 'approve') { const burnt = s.pre.supply - s.post.supply; if (burnt !== FEE) this.bad(w, 'the fee did not leave the supply', { ...ctx, burnt }); }
      }
    }
    this.ev(n.kind === 'deposit' ? null : [s.method, o.k, n.fee === null ? 'none' : rel(n.fee, FEE) + (n.fee > U128 ? 'big' : n.fee === 0n ? '0' : ''), n.spender ? (n.from && sameAcc(n.spender, n.from) ? 'own' : 'sp') : '', magn(n.amount), rel(s.pre.bal.get(akey(n.from)) ?? 0n, (n.kind === 'approve' ? 0n : n.amount) + FEE)].join(':'), () => ctx);
  }
  onEnd(w) {
    const f = w.query('icrc1_fee', []); if (f !== FEE) this.bad(w, 'icrc1_fee differs from the fee that is charged', { published: f, charged: FEE });
    const m = w.query('icrc1_metadata', []); const e = Array.isArray(m) && m.find((x) => x['0'] === 'icrc1:fee'); if (!e || e['1'].Nat !== FEE) this.bad(w, 'icrc1:fee in the metadata differs from the fee that is charged', e);
  }
}

export class Funds extends Mon {
  constructor() { super('C14'); }
  onSegment(w, s) {
    const n = s.op && s.op.n; if (s.kind !== 'update' || !n || n.kind === 'deposit') return;
    const o = outcome(s), bal = s.pre.bal.get(akey(n.from)) ?? 0n, need = (n.kind === 'approve' ? 0n : n.amount) + FEE;
    const ctx = { method: s.method, args: s.op.args, balance: bal, need, outcome: o };
    if (accepted(o) && bal < need) this.bad(w, 'an operation was accepted that the account cannot pay', ctx);
    if (o.k === 'InsufficientFunds') { if (bal >= need) this.bad(w, 'an affordable operation was refused for lack of funds', ctx); if (o.p.balance !== bal) this.bad(w, 'InsufficientFunds reports a wrong balance', ctx); }
    // an affordable operation with nothing else against it must go through
    if (!accepted(o) && bal >= need) { const R = reasons(w, s); if (R.size === 0 && !(n.to && (s.pre.bal.get(akey(n.to)) ?? 0n) + n.amount > U128)) this.bad(w, 'an operation that nothing speaks against was refused', ctx); }
    this.ev([s.method, o.k, rel(bal, need), magn(n.amount), bal === 0n ? 'empty' : '', n.spender && !sameAcc(n.spender, n.from) ? 'sp' : '', n.to && n.from && sameAcc(n.to, n.from) ? 'self' : ''].join(':'), () => ctx);
  }
}

export class Deposits extends Mon {
  constructor() { super('C15'); }
  onSegment(w, s) {
    if (s.op && s.method !== 'deposit') { // no other method keeps cycles that come with the call
      const op = s.op; if (s.accepted > 0n || (op.done && op.ctx.refund !== op.sent)) this.bad(w, 'a method other than deposit kept attached cycles', { method: s.method, sent: op.sent, accepted: s.accepted, refund: op.ctx.refund });
      if (op.sent > 0n) this.ev(['other', s.method, s.kind, op.done ? outcome(s).k : 'pending', rel(op.sent, FEE)].join(':'), () => ({ method: s.method, sent: String(op.sent), refund: String(op.ctx.refund) }));
      return;
    }
    if (s.kind !== 'update' || !s.op.n || s.op.n.kind !== 'deposit') return;
    const op = s.op, n = op.n, o = outcome(s), ctx = { args: op.args, sent: op.sent, outcome: o };
    const bad = op.sent <= FEE || (n.memo !== null && n.memo.length > 64);
    this.ev([o.k, rel(op.sent, FEE), n.memo === null ? 'n' : n.memo.length / 2, n.to.subaccount === null ? 'none' : akey(n.to).endsWith('/') ? 'zero' : 'sub', op.caller === '04', op.caller === n.to.owner, s.pre.bal.get(akey(n.to)) === 0n].join(':'), () => ctx);
    if (bad) {
      if (o.k === 'Ok') this.bad(w, op.sent <= FEE ? 'a deposit that does not exceed the fee was accepted' : 'a deposit with an oversized memo was accepted', ctx);
      else if (op.ctx.refund !== op.sent || s.post.cycles !== s.pre.cycles) this.bad(w, 'a refused deposit kept cycles', { ...ctx, refund: op.ctx.refund });
      return;
    }
    if (o.k !== 'Ok') return this.bad(w, 'a valid deposit was refused', ctx);
    if (s.accepted !== op.sent || op.ctx.refund !== 0n || s.post.cycles - s.pre.cycles !== op.sent) this.bad(w, 'a deposit did not take exactly the attached cycles', { ...ctx, accepted: s.accepted });
    const was = s.pre.bal.get(akey(n.to)) ?? 0n, now = s.post.bal.get(akey(n.to));
    if (now - was !== op.sent - FEE) this.bad(w, 'a deposit did not credit the attached cycles less the fee', { ...ctx, before: was, after: now });
    if (s.post.supply - s.pre.supply !== op.sent - FEE) this.bad(w, 'a deposit changed the supply by another amount than credited', ctx);
    if (o.p.balance !== now) this.bad(w, 'the deposit answer reports a wrong balance', { ...ctx, balance: now });
    const b = s.blocks[0];
    if (!b || s.blocks.length !== 1 || o.p.block_index !== b.id) return this.bad(w, 'the deposit answer does not name its block', ctx);
    if (b.op !== 'mint' || rawAcc(b.to) !== rawAcc(n.to) || b.amt !== op.sent - FEE || b.memo !== n.memo || b.txfee !== FEE || b.cat !== null) this.bad(w, 'the deposit block misstates the deposit', { ...ctx, op: b.op, to: rawAcc(b.to), amt: b.amt, memo: b.memo, fee: b.txfee });
  }
}

export class Validation extends Mon {
  constructor() { super('C26'); }
  onSegment(w, s) {
    const n = s.op && s.op.n; if (s.kind !== 'update' || !n) return;
    const o = outcome(s), ctx = { method: s.method, args: s.op.args, caller: s.op.caller, outcome: o };
    const denied = (n.kind === 'transfer' || n.kind === 'approve') && [n.from, n.to, n.spender].some((x) => x && x.owner === MGMT);
    const self = n.kind === 'approve' && n.from.owner === n.spender.owner;
    const memo = n.memo !== null && n.memo !== undefined && n.memo.length > 64;
    const zero = n.kind === 'withdraw' && n.amount === 0n, recv = n.kind === 'withdraw' && isSelfAuth(n.target);
    const why = denied ? 'involving the management canister' : self ? 'approving its own owner' : memo ? 'with a memo above 32 bytes' : zero ? 'withdrawing nothing' : recv ? 'withdrawing to a self-authenticating principal' : null;
    if (accepted(o) && why) this.bad(w, 'an operation was accepted ' + why, ctx);
    if (o.k === 'Denied' && !denied) this.bad(w, 'an ordinary account was refused as denied', ctx);
    if (o.k === 'Zero' && !zero) this.bad(w, 'an operation was refused as zero', ctx);
    if (o.k === 'InvalidReceiver') { if (!recv) this.bad(w, 'a canister was refused as receiver', ctx); else if (o.p.receiver !== n.target) this.bad(w, 'InvalidReceiver names another principal', ctx); }
    if (s.trap && s.trap.kind === 'explicit') {
      if (/self approval/.test(s.trap.msg) && !self) this.bad(w, 'an approval to another owner was refused as self approval', ctx);
      if (/memo/.test(s.trap.msg) && !memo) this.bad(w, 'a memo of at most 32 bytes was refused', ctx);
    }
    this.ev(why || (n.memo && n.memo.length >= 62) || n.kind === 'withdraw' ? [s.method, o.k, why ?? 'ok', n.memo ? n.memo.length / 2 : '', n.target ? n.target.length / 2 : '', denied ? [n.from, n.to, n.spender].map((x) => x ? +(x.owner === MGMT) : '-').join('') : ''].join(':') : s.op.caller === '04' ? 'anon:' + s.method + ':' + o.k : null, () => ctx);
  }
}
