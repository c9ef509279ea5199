// C30: the companion canisters (depositor, stand-in cycles minting canister) run together with the ledger
import { Mon, magn } from './base.mjs';
import { CMC, FEE } from '../engine/ledger.mjs';
const J = (v) => JSON.stringify(v, (k, x) => typeof x === 'bigint' ? x + 'n' : x instanceof Uint8Array ? Buffer.from(x).toString('hex') : x && typeof x === 'object' && !Array.isArray(x) ? Object.fromEntries(Object.keys(x).sort().filter((y) => x[y] !== null && x[y] !== undefined).map((y) => [y, x[y]])) : x);
export const MIN = 100_000_000_000n;

export class Companions extends Mon {
  constructor() { super('C30'); }
  // the depositor sent its request
  sent(w, e) {
    const c = e.calls;
    if (e.arg.cycles > e.held) { // cannot be attached
      if (c.length) this.bad(w, 'the depositor sent cycles it does not have', e); if (e.after !== e.held) this.bad(w, 'a deposit that was not sent cost cycles', e);
      return this.ev('deposit:too much:' + magn(e.arg.cycles));
    }
    if (c.length !== 1) return this.bad(w, 'a deposit did not make exactly one request to the ledger', e);
    if (!c[0].guaranteed) this.bad(w, 'the deposit may time out while the ledger keeps its cycles (no guaranteed response)', e);
    if (c[0].callee !== e.ledger || c[0].method !== 'deposit') this.bad(w, 'the depositor calls something else than the ledger', e);
    if (c[0].cycles !== e.arg.cycles) this.bad(w, 'the depositor attached another amount than it was asked to', { asked: e.arg.cycles, attached: c[0].cycles });
    if (e.after !== e.held - e.arg.cycles) this.bad(w, 'sending changed the cycles of the depositor by another amount', e);
    if (J(c[0].args) !== J({ to: e.arg.to, memo: e.arg.memo })) this.bad(w, 'the depositor names another account or memo than it was asked to', { asked: e.arg, sent: c[0].args });
    this.ev(['sent', magn(e.arg.cycles), e.arg.to.subaccount === null ? 'default' : 'sub', e.arg.memo === null ? 'none' : e.arg.memo.length / 2, e.open].join(':'));
  }
  // the ledger answered and the depositor answered its caller
  deposited(w, e) {
    if (e.ledgerOk) {
      if (!e.result || e.result.reject) return this.bad(w, 'a successful deposit was not reported by the depositor', e);
      if (J(e.result) !== J(e.ledgerOk)) this.bad(w, 'the depositor reports another balance or block than the ledger', e);
      if (e.after !== e.before) this.bad(w, 'a successful deposit gave cycles back', e);
      const b = e.block; if (!b || b.op !== 'mint' || b.amt !== e.arg.cycles - FEE) this.bad(w, 'the ledger did not mint the cycles handed on, less the fee', e);
    } else {
      if (!e.result || !e.result.reject) this.bad(w, 'a refused deposit was reported as successful', e);
      if (e.after !== e.before + e.arg.cycles) this.bad(w, 'the cycles of a refused deposit did not come back', e);
    }
    this.ev(['answered', !!e.ledgerOk, magn(e.arg.cycles), e.arg.memo === null ? 'none' : e.arg.memo.length > 64 ? 'long' : 'memo', e.open].join(':'), () => ({ arg: e.arg, answer: e.ledgerOk ?? 'refused' }));
  }
  // create_canister reached the stand-in CMC
  creation(w, e) {
    const got = e.result, kept = e.kept;
    if (e.cycles < MIN) {
      if (J(got) !== J({ Err: { Refunded: { refund_amount: e.cycles, create_error: got && got.Err && got.Err.Refunded ? got.Err.Refunded.create_error : '?' } } })) this.bad(w, 'a creation with too few cycles was not refunded completely', e);
      if (kept !== 0n || e.calls.length) this.bad(w, 'a creation with too few cycles kept cycles or created something', e);
      return this.ev('create:few:' + (e.cycles === 0n) + ':' + (MIN - e.cycles === 1n) + ':' + !!e.scripted + e.open);
    }
    if (e.scripted) {
      const kind = Object.keys(e.scripted)[0], back = kind === 'Refunded' ? e.scripted.Refunded.refund_amount : 0n;
      if (J(got) !== J({ Err: e.scripted })) this.bad(w, 'the scripted failure was not reported as scripted', e);
      if (kept !== e.cycles - back) this.bad(w, 'the cycles kept do not match the refund reported', e);
      if (e.calls.length) this.bad(w, 'a creation that fails as scripted created something', e);
      return this.ev('create:scripted:' + kind + ':' + (back === 0n ? '0' : back === e.cycles ? 'all' : 'part') + ':' + e.from + e.open);
    }
    if (e.result !== undefined) return this.bad(w, 'a creation was answered without creating a canister', e);
    this.attempt(w, e);
    if (kept !== 0n) this.bad(w, 'a creation does not pass on all its cycles', e);
    this.ev('create:sent:' + magn(e.cycles) + ':' + e.from + e.open);
  }
  attempt(w, e) {
    const c = e.calls;
    if (c.length !== 1 || c[0].callee !== '' || c[0].method !== 'create_canister') return this.bad(w, 'a creation does not make exactly one request to the management canister', e);
    if (c[0].cycles !== e.cycles) this.bad(w, 'a creation does not pass on exactly the cycles attached', e);
    if (J(c[0].args.settings) !== J(e.arg.settings)) this.bad(w, 'a creation does not pass on the settings asked for', { asked: e.arg.settings, sent: c[0].args.settings });
  }
  managed(w, e) { // the management canister answered
    if (e.answer === 'exists') { if (e.result !== undefined) return this.bad(w, 'a used canister id was not retried', e); this.attempt(w, e); return this.ev('create:retry:' + e.tries + e.open); }
    if (e.answer === 'ok') { if (!e.result || e.result.Ok !== e.canister) this.bad(w, 'the answer does not name the canister created', e); if (e.calls.length) this.bad(w, 'more than one canister was created', e); }
    else { if (!e.result || !e.result.reject) this.bad(w, 'a failed creation was answered as successful', e); }
    this.ev('create:' + e.answer + ':' + e.tries + ':' + e.from + e.open, () => ({ arg: e.arg, cycles: e.cycles, answer: e.result }));
  }
  lastArgs(w, e) {
    if (e.want === null ? !(e.got && e.got.reject) : J(e.got) !== J(e.want)) this.bad(w, 'the recorded creation arguments are not those of the last creation', e);
    this.ev('last:' + (e.want === null ? 'none' : J(e.want).length));
  }
  rate(w, e) { if (e.got.data.xdr_permyriad_per_icp !== 50_000n || e.got.data.timestamp_seconds !== e.t / 1_000_000_000n) this.bad(w, 'the conversion rate is not the published one at the current time', e); this.ev('rate:' + e.i); }
  total(w, e) {
    if (e.total !== e.start) this.bad(w, 'cycles were created or lost between the canisters', e);
    if (e.held < e.supply) this.bad(w, 'the ledger holds fewer cycles than it owes', e);
    this.ev('total:' + e.steps);
  }
}
