// C08 allowance accounting, C09 expiry, C10 compare-and-set
import { Mon, eqAlw, rel, magn } from './base.mjs';
import { FEE, U128, akey, pkey, unpkey, sameAcc } from '../engine/ledger.mjs';
import { outcome, accepted, usesAllowance } from '../engine/expect.mjs';
import { expectSettle } from './settlespec.mjs';

const live = (g, t) => g && !(g.e !== null && g.e <= t) ? g : { a: 0n, e: null };

export class Allowances extends Mon {
  constructor() { super('C08'); }
  onSegment(w, s) {
    if (s.kind === 'install' || s.kind === 'bulk') return;
    const n = s.op && s.op.n; let touched = null;
    if (s.kind === 'update' && n && n.kind !== 'deposit') {
      const o = outcome(s); const p = n.spender && pkey(n.from, n.spender);
      const truth = s.op.foldPre ? live(s.op.foldPre.alw, s.t) : null;
      if (accepted(o)) {
        if (n.kind === 'approve') {
          touched = p; const want = n.amount === 0n ? { a: 0n, e: null } : { a: n.amount > U128 ? U128 : n.amount, e: n.expires };
          const v = s.post.alw.get(p);
          if (v && !eqAlw(v, want) && !(n.expires !== null && n.expires <= s.t)) this.bad(w, 'an approval did not set the allowance it names', { args: s.op.args, want, got: v });
        } else if (usesAllowance(n)) {
          touched = p; const need = n.amount + FEE;
          if (truth.a < need) this.bad(w, 'a spender spent more than the allowance in force', { allowance: truth, spent: need, args: s.op.args, now: s.t });
          const sync = o.k === 'Failed' ? expectSettle(w, s).blocks.find((b) => b.op === 'approve') : null;
          const want = sync ? { a: sync.amt, e: sync.expires } : truth.a === need ? { a: 0n, e: null } : { a: truth.a - need, e: truth.e };
          const v = s.post.alw.get(p);
          if (v && !eqAlw(v, want)) this.bad(w, 'spending did not reduce the allowance by exactly amount plus fee', { before: truth, spent: need, want, got: v, args: s.op.args });
        }
      } else {
        if (o.k === 'InsufficientAllowance') {
          if (!usesAllowance(n)) this.bad(w, 'an allowance was demanded from the owner of the funds', { method: s.method, args: s.op.args });
          else {
            if (truth.a >= n.amount + FEE) this.bad(w, 'a spend within the allowance was refused for the allowance', { allowance: truth, need: n.amount + FEE, args: s.op.args, now: s.t });
            if (o.p.allowance !== truth.a) this.bad(w, 'InsufficientAllowance reports a wrong allowance', { reported: o.p.allowance, allowance: truth });
          }
        }
        if (o.k === 'ExpiredApproval' && truth.a > 0n) this.bad(w, 'a live approval was refused as expired', { allowance: truth, now: s.t });
      }
      if (usesAllowance(n) || n.kind === 'approve' || n.spender) this.ev([s.method, o.k, truth ? rel(truth.a, n.kind === 'approve' ? n.amount : n.amount + FEE) : '', truth ? (truth.a === 0n ? 'none' : truth.e === null ? 'perm' : 'timed') : '', n.spender && sameAcc(n.spender, n.from) ? 'own' : '', magn(n.amount)].join(':'), () => ({ call: s.method, allowance: truth, amount: n.amount, outcome: o.k }));
    } else if (s.kind === 'callback' && n && usesAllowance(n)) {
      const ex = expectSettle(w, s).blocks.find((b) => b.op === 'approve');
      if (ex) touched = pkey(n.from, n.spender);
    }
    for (const [p, v] of s.post.alw) {
      const was = s.pre.alw.get(p); if (!was || p === touched) continue;
      if (!eqAlw(was, v) && !(was.e !== null && was.e <= s.t && v.a === 0n)) this.bad(w, 'an allowance changed that the operation does not concern', { pair: p, before: was, after: v, method: s.method, kind: s.kind });
    }
  }
}

export class Expiry extends Mon {
  constructor() { super('C09'); }
  onSegment(w, s) {
    const n = s.op && s.op.n, t = s.t;
    // every approval with an expiry, as reported now
    for (const [p, v] of s.post.alw) {
      const raw = w.fold.alw.get(p);
      if (v.reject) { this.bad(w, 'allowance query failed', { pair: p, reject: v.reject }); continue; }
      if (!raw) { if (v.a !== 0n) this.bad(w, 'an allowance is reported that was never granted or is used up', { pair: p, got: v, now: t }); continue; }
      if (raw.e === null) { if (v.e !== null || v.a !== raw.a) this.bad(w, 'an approval without expiry is not reported as granted', { pair: p, granted: raw, got: v, now: t }); else if (s.kind !== 'time') this.ev('perm:' + s.kind + s.blocks.length); continue; }
      if (raw.e <= t) { if (v.a !== 0n) this.bad(w, 'an expired approval is still reported', { pair: p, granted: raw, got: v, now: t }); }
      else if (v.a !== raw.a || v.e !== raw.e) this.bad(w, 'an approval was lost or altered before its expiry', { pair: p, granted: raw, got: v, now: t, step: s.kind + ' ' + (s.method ?? '') });
      const d = raw.e - t; this.ev('report:' + s.kind + ':' + (d === 0n ? '=' : d === 1n ? '1ns before' : d === -1n ? '1ns after' : d > 0n ? 'before' : 'after'), () => ({ pair: p, expires: raw.e, now: t, reported: v }));
    }
    if (s.kind !== 'update' || !n || !s.op.foldPre) return;
    const o = outcome(s), g = s.op.foldPre.alw;
    if (n.kind === 'approve') {
      if (n.expires !== null) {
        if (accepted(o) && n.expires <= t) this.bad(w, 'an approval was accepted that expires at or before the ledger time', { expires: n.expires, now: t });
        this.ev('approve:' + rel(n.expires, t) + ':' + o.k, () => ({ expires: n.expires, now: t, outcome: o.k }));
      }
      if (o.k === 'Expired') { if (n.expires === null || n.expires > t) this.bad(w, 'a future expiry was refused', { expires: n.expires, now: t }); if (o.p.ledger_time !== t) this.bad(w, 'Expired reports a wrong ledger time', { reported: o.p.ledger_time, now: t }); }
      if (g && g.e !== null && n.expected !== null && n.expected <= U128) {
        const cur = live(g, t).a;
        if (accepted(o) && n.expected !== cur) this.bad(w, 'compare-and-set accepted against an allowance that is not in force', { expected: n.expected, inForce: cur, granted: g, now: t });
        if (o.k === 'AllowanceChanged' && o.p.current_allowance !== cur) this.bad(w, 'AllowanceChanged reports an allowance that is not in force', { reported: o.p.current_allowance, inForce: cur, granted: g, now: t });
        this.ev('cas:' + rel(g.e, t) + ':' + o.k);
      }
      return;
    }
    if (usesAllowance(n) && g && g.e !== null) {
      const exp = g.e <= t;
      if (exp && accepted(o)) this.bad(w, 'an expired approval was spent', { granted: g, now: t, args: s.op.args });
      if (!exp && o.k === 'ExpiredApproval') this.bad(w, 'a live approval was refused as expired', { granted: g, now: t });
      if (!exp && o.k === 'InsufficientAllowance' && g.a >= n.amount + FEE) this.bad(w, 'a live approval was not honoured before its expiry', { granted: g, now: t, need: n.amount + FEE });
      this.ev('spend:' + s.method + ':' + rel(g.e, t) + ':' + o.k, () => ({ expires: g.e, now: t, outcome: o.k }));
    }
  }
}

export class Cas extends Mon {
  constructor() { super('C10'); }
  onSegment(w, s) {
    const n = s.op && s.op.n; if (s.kind !== 'update' || !n || n.kind !== 'approve' || !s.op.foldPre) return;
    const o = outcome(s), cur = live(s.op.foldPre.alw, s.t);
    const ctx = { expected: n.expected, inForce: cur, outcome: o.k, args: s.op.args, now: s.t };
    if (n.expected === null) { if (o.k === 'AllowanceChanged') this.bad(w, 'an unconditional approval was refused as changed', ctx); this.ev(null); return; }
    if (accepted(o) && n.expected !== cur.a) this.bad(w, 'a conditional approval was accepted although the allowance differs from the expected one', ctx);
    if (o.k === 'AllowanceChanged') {
      if (n.expected === cur.a) this.bad(w, 'a conditional approval was refused although the allowance is as expected', ctx);
      if (o.p.current_allowance !== cur.a) this.bad(w, 'AllowanceChanged reports a wrong allowance', { ...ctx, reported: o.p.current_allowance });
    }
    if (accepted(o)) { const b = s.blocks[0]; if (b && b.expected !== n.expected) this.bad(w, 'the block does not record the condition', { ...ctx, recorded: b.expected }); }
    const g = s.op.foldPre.alw;
    this.ev([o.k, rel(n.expected, cur.a), magn(n.expected), !g ? 'none' : g.e === null ? 'perm' : g.e <= s.t ? 'expired' : 'live', magn(n.amount)].join(':'), () => ctx);
  }
}
