// Raw argument bytes: well-formed variants of an argument (fields left out, extra fields)
// that must be taken, and malformed ones that must be rejected without effect.
import { did } from '../engine/world.mjs';
import { unhex, hex } from '../engine/candid.mjs';
import { acc, FEE } from '../engine/ledger.mjs';
import { MUTATING } from '../engine/expect.mjs';

// args -> bytes at a changed interface
const SUB = (n) => '33'.repeat(n);
export function malformed(ep) {
  const r = ep.r;
  const kind = r.pick(['deposit', 'transfer', 'transfer_from', 'approve', 'withdraw', 'withdraw_from', 'create', 'create_from']);
  const f = ep.f, s = ep.s;
  const base = {
    deposit: ['deposit', { to: f, memo: null }], transfer: ['icrc1_transfer', { from_subaccount: f.subaccount, to: s, amount: FEE, fee: null, memo: null, created_at_time: null }],
    transfer_from: ['icrc2_transfer_from', { spender_subaccount: s.subaccount, from: f, to: s, amount: 1n, fee: null, memo: null, created_at_time: null }],
    approve: ['icrc2_approve', { from_subaccount: f.subaccount, spender: s, amount: FEE, expected_allowance: null, expires_at: null, fee: null, memo: null, created_at_time: null }],
    withdraw: ['withdraw', { from_subaccount: f.subaccount, to: '00000000000000010101', amount: 1n, created_at_time: null }], withdraw_from: ['withdraw_from', { spender_subaccount: s.subaccount, from: f, to: '00000000000000010101', amount: 1n, created_at_time: null }],
    create: ['create_canister', { from_subaccount: f.subaccount, amount: 1n, created_at_time: null, creation_args: null }], create_from: ['create_canister_from', { spender_subaccount: s.subaccount, from: f, amount: 1n, created_at_time: null, creation_args: null }],
  }[kind];
  const [method, a] = base; const caller = r.pick(ep.owners); const cycles = method === 'deposit' ? 5n * FEE : 0n;
  const good = Buffer.from(did.encode(did.service[method].args, [a]));
  const mk = (raw, what) => ({ method, caller, cycles, raw: Uint8Array.from(raw), what });
  const c = r.int(7);
  if (c === 0) return mk(Buffer.alloc(0), 'no bytes');
  if (c === 1) return mk(Buffer.from('4449444c0000', 'hex'), 'no argument');
  if (c === 2) return mk(good.subarray(0, r.range(4, good.length - 1)), 'truncated');
  if (c === 3) return mk(Buffer.concat([Buffer.from('XIDL'), good.subarray(4)]), 'wrong magic');
  if (c === 4) { // an account whose subaccount is not 32 bytes
    const b = { ...a }; const bad = SUB(r.pick([0, 1, 31, 33, 64])); const k = ['to', 'from', 'spender', 'from_subaccount', 'spender_subaccount'].filter((x) => x in b && (x.endsWith('subaccount') || typeof b[x] === 'object'));
    const x = r.pick(k); b[x] = x.endsWith('subaccount') ? bad : acc(b[x].owner, bad);
    return mk(did.encode(did.service[method].args, [b]), 'subaccount of ' + bad.length / 2 + ' bytes');
  }
  if (c === 5) return mk(did.encode(did.service.icrc1_balance_of.args, [f]), 'argument of another method');
  return mk(Buffer.concat([good, Buffer.from([1])]), 'trailing bytes');
}
