// Ledger vocabulary shared by monitors: constants of the published interface, accounts,
// block parsing, and the replay ("fold") of a block log into balances and allowances,
// written from the ICRC-1/2/3 standards and INTERFACE_SPECIFICATION.md.
import { valueHash, mapOf } from './icrc3.mjs';
import { hex } from './candid.mjs';

export const FEE = 100_000_000n;
export const U128 = (1n << 128n) - 1n;
export const U64 = (1n << 64n) - 1n;
export const SEC = 1_000_000_000n;
export const WINDOW = 24n * 3600n * SEC;
export const DRIFT = 60n * SEC;
export const MGMT = '';
export const ANON = '04';
export const CMC = '00000000000000040101';
export const Z32 = '00'.repeat(32);
// the canisters everybody knows: those of the NNS, this ledger and its index
export const KNOWN = [...Array.from({ length: 13 }, (_, i) => '00000000000000' + i.toString(16).padStart(2, '0') + '0101'), '00000000021000020101', '00000000021000030101'];
export const LEDGER_ID = '00000000021000020101';
export const REFUND_MEMO_W = 'ff'.repeat(32), CREATE_MEMO = 'fe'.repeat(32), REFUND_MEMO_C = 'fd'.repeat(32);

export const acc = (owner, subaccount = null) => ({ owner, subaccount });
export const akey = (a) => a.owner + '/' + (a.subaccount && a.subaccount !== Z32 ? a.subaccount : '');
export const unkey = (k) => { const [o, s] = k.split('/'); return { owner: o, subaccount: s || null }; };
export const pkey = (a, b) => akey(a) + '>' + akey(b);
export const unpkey = (k) => k.split('>').map(unkey);
export const sameAcc = (a, b) => akey(a) === akey(b);
export const rawAcc = (a) => a === null || a === undefined ? '-' : a.owner + '/' + (a.subaccount ?? 'none');

// ---- block parsing: returns {.., err} with err = list of schema complaints ----
const natOf = (v, what, err, max) => { if (!v || typeof v.Nat !== 'bigint') { err.push(`${what} is not a Nat`); return 0n; } if (max !== undefined && v.Nat > max) err.push(`${what} out of range`); return v.Nat; };
const blobOf = (v, what, err) => { if (!v || typeof v.Blob !== 'string') { err.push(`${what} is not a Blob`); return ''; } return v.Blob; };
function accOf(v, what, err) {
  if (!v || !Array.isArray(v.Array) || v.Array.length < 1 || v.Array.length > 2) { err.push(`${what} is not an account array`); return acc('bad'); }
  const o = blobOf(v.Array[0], what + '.owner', err); if (o.length > 58) err.push(`${what} owner too long`);
  let s = null; if (v.Array.length === 2) { s = blobOf(v.Array[1], what + '.sub', err); if (s.length !== 64) err.push(`${what} subaccount is not 32 bytes`); }
  return { owner: o, subaccount: s };
}
const TXF = { mint: ['amt', 'to', 'fee'], xfer: ['amt', 'from', 'to', 'spender', 'fee'], burn: ['amt', 'from', 'spender'], approve: ['amt', 'from', 'spender', 'expected_allowance', 'expires_at', 'fee'] };
export function parseBlock(value) {
  const err = []; const b = { err, value };
  try {
    b.hash = hex(valueHash(value));
    const m = mapOf(value);
    for (const k of Object.keys(m)) if (!['tx', 'ts', 'phash', 'fee'].includes(k)) err.push('unknown block field ' + k);
    b.ts = natOf(m.ts, 'ts', err, U64);
    b.phash = m.phash ? blobOf(m.phash, 'phash', err) : null;
    if (b.phash !== null && b.phash.length !== 64) err.push('phash is not 32 bytes');
    b.fee = m.fee ? natOf(m.fee, 'fee', err, U128) : null;
    const t = mapOf(m.tx);
    b.op = t.op && t.op.Text;
    if (!TXF[b.op]) { err.push('unknown tx.op ' + b.op); return b; }
    for (const k of Object.keys(t)) if (k !== 'op' && k !== 'ts' && k !== 'memo' && !TXF[b.op].includes(k)) err.push(`unexpected tx.${k} in ${b.op}`);
    b.amt = natOf(t.amt, 'amt', err, U128);
    b.txfee = t.fee ? natOf(t.fee, 'tx.fee', err, U128) : null;
    b.memo = t.memo ? blobOf(t.memo, 'memo', err) : null;
    if (b.memo !== null && b.memo.length > 64) err.push('memo longer than 32 bytes');
    b.cat = t.ts ? natOf(t.ts, 'tx.ts', err, U64) : null;
    b.from = t.from ? accOf(t.from, 'from', err) : null;
    b.to = t.to ? accOf(t.to, 'to', err) : null;
    b.spender = t.spender ? accOf(t.spender, 'spender', err) : null;
    b.expected = t.expected_allowance ? natOf(t.expected_allowance, 'expected_allowance', err, U128) : null;
    b.expires = t.expires_at ? natOf(t.expires_at, 'expires_at', err, U64) : null;
    if (b.op !== 'mint' && !b.from) err.push('no from');
    if ((b.op === 'mint' || b.op === 'xfer') && !b.to) err.push('no to');
    if (b.op === 'approve' && !b.spender) err.push('no spender');
  } catch (e) { err.push(String(e.message)); }
  return b;
}
// the fee a block charges: the block-level fee if present, else the one in the transaction
export function feeOf(b) { if (b.fee !== null) return b.fee; if (b.op === 'mint') return 0n; return b.txfee ?? 0n; }

export const txKeyRaw = (b) => [b.op, rawAcc(b.from), rawAcc(b.to), rawAcc(b.spender), b.amt, b.op === 'mint' || b.op === 'burn' ? '' : b.txfee, b.memo === null ? '-' : 'm' + b.memo, b.cat, b.expected, b.expires].join('|');
export const txKeySoft = (b) => [b.op, b.from ? akey(b.from) : '-', b.to ? akey(b.to) : '-', b.spender ? akey(b.spender) : '-', b.amt, b.op === 'mint' || b.op === 'burn' ? '' : b.txfee, b.memo === null ? '-' : 'm' + b.memo, b.cat, b.expected, b.expires].join('|');

// Replay of a block log.
export class Fold {
  constructor() { this.bal = new Map(); this.alw = new Map(); this.supply = 0n; this.n = 0; this.bad = []; }
  get(a) { return this.bal.get(akey(a)) ?? 0n; }
  set(a, v) { const k = akey(a); if (v === 0n) this.bal.delete(k); else this.bal.set(k, v); }
  // allowance in force at time t
  allowance(k, t) { const x = this.alw.get(k); if (!x) return { a: 0n, e: null }; if (x.e !== null && x.e <= t) return { a: 0n, e: null }; return x; }
  spend(b, total, i) {
    if (!b.spender || sameAcc(b.spender, b.from)) return;
    const k = pkey(b.from, b.spender); const cur = this.allowance(k, b.ts);
    if (cur.a < total) { this.bad.push(`block ${i}: ${b.op} by a spender without an allowance covering ${total} (has ${cur.a})`); return; }
    if (cur.a === total) this.alw.delete(k); else this.alw.set(k, { a: cur.a - total, e: cur.e });
  }
  debit(a, v, i) { const x = this.get(a); if (x < v) { this.bad.push(`block ${i}: debit of ${v} from ${akey(a)} holding ${x}`); this.set(a, 0n); this.supply -= x; } else { this.set(a, x - v); this.supply -= v; } }
  credit(a, v) { this.set(a, this.get(a) + v); this.supply += v; }
  apply(b) {
    const i = this.n++;
    const fee = feeOf(b);
    if (b.op === 'mint') this.credit(b.to, b.amt);
    else if (b.op === 'xfer') { this.spend(b, b.amt + fee, i); this.debit(b.from, b.amt + fee, i); this.credit(b.to, b.amt); }
    else if (b.op === 'burn') { this.spend(b, b.amt + fee, i); this.debit(b.from, b.amt + fee, i); }
    else if (b.op === 'approve') {
      this.debit(b.from, fee, i);
      const k = pkey(b.from, b.spender);
      if (b.amt === 0n) this.alw.delete(k); else this.alw.set(k, { a: b.amt, e: b.expires });
    }
  }
}
