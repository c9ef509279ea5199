// What the demonstrations share: build the canister of the current directory, run it, call it.
import fs from 'node:fs';
import { build, released } from './engine/build.mjs';
import { World, okDeposit, rej, cmcOk, cmcRefunded, cmcRefundFailed, garbage, did } from './engine/world.mjs';
import * as L from './engine/ledger.mjs';
export { okDeposit, rej, cmcOk, cmcRefunded, cmcRefundFailed, garbage, L, did };
export const { FEE, acc, SEC, U128, U64, WINDOW, DRIFT, akey } = L;
export const A = '00000000000000a10101', B = '00000000000000b20101', C = '00000000000000c30101', TARGET = '00000000000000f70101', S1 = '11'.repeat(32), Z32 = L.Z32;
const wasm = build(['vprel']);
const module = new WebAssembly.Module(fs.readFileSync(wasm.vprel));
export const RELEASED = () => new WebAssembly.Module(released()), CURRENT = module;
let failed = 0;
export const S = (v) => JSON.stringify(v, (k, x) => typeof x === 'bigint' ? x + 'n' : x);
export function eq(got, want, what) { if (S(got) !== S(want)) { failed++; console.log(`WRONG ${what}: got ${S(got)}, expected ${S(want)}`); } else console.log(`ok ${what}: ${S(got)}`); }
export const ok = (c, what) => eq(!!c, true, what);
export function done() { console.log(failed ? 'property broken' : 'property holds'); process.exit(failed ? 1 : 0); }
export class T {
  constructor(o = {}) {
    this.w = new World({ module: o.module ?? module, seed: 'demo', init: o.init ?? { max_blocks_per_request: o.max ?? 100n, index_id: o.index ?? null, initial_balances: o.balances ?? null }, time: o.time ?? 1_700_000_000n * SEC, ledgerCycles: o.cycles ?? 100000n * FEE, obs: { metrics: false } });
    this.w.keepTrace = false;
    this.installed = this.w.install();
  }
  get now() { return this.w.now; }
  at(t) { this.w.advanceTo(t); }
  pass(dt) { this.w.advance(dt); }
  bal(a) { return this.w.balance(a); }
  alw(f, s) { return this.w.allowance(f, s); }
  supply() { return this.w.query('icrc1_total_supply', []); }
  len() { return this.w.query('icrc3_get_blocks', [[]]).log_length; }
  block(i) { return this.w.chain[Number(i)]; }
  call(m, args, o) { const op = this.w.call(m, args, o); return this.last = op; }
  dep(to, amt, memo = null, caller = C) { return this.call('deposit', [{ to, memo }], { caller, cycles: amt + FEE }).result; }
  xfer(f, to, amount, o = {}) { return this.call('icrc1_transfer', [{ from_subaccount: f.subaccount, to, amount, fee: o.fee ?? null, memo: o.memo ?? null, created_at_time: o.cat ?? null }], { caller: f.owner }).result; }
  appr(f, s, amount, o = {}) { return this.call('icrc2_approve', [{ from_subaccount: f.subaccount, spender: s, amount, expected_allowance: o.expect ?? null, expires_at: o.exp ?? null, fee: o.fee ?? null, memo: o.memo ?? null, created_at_time: o.cat ?? null }], { caller: f.owner }).result; }
  xfrom(s, f, to, amount, o = {}) { return this.call('icrc2_transfer_from', [{ spender_subaccount: s.subaccount, from: f, to, amount, fee: o.fee ?? null, memo: o.memo ?? null, created_at_time: o.cat ?? null }], { caller: s.owner }).result; }
  wd(f, amount, o = {}) { return this.call('withdraw', [{ from_subaccount: f.subaccount, to: o.to ?? TARGET, amount, created_at_time: o.cat ?? null }], { caller: f.owner, faults: o.faults ?? null }); }
  wdf(s, f, amount, o = {}) { return this.call('withdraw_from', [{ spender_subaccount: s.subaccount, from: f, to: o.to ?? TARGET, amount, created_at_time: o.cat ?? null }], { caller: s.owner, faults: o.faults ?? null }); }
  cc(f, amount, o = {}) { return this.call('create_canister', [{ from_subaccount: f.subaccount, amount, created_at_time: o.cat ?? null, creation_args: o.args ?? null }], { caller: f.owner, faults: o.faults ?? null }); }
  ccf(s, f, amount, o = {}) { return this.call('create_canister_from', [{ spender_subaccount: s.subaccount, from: f, amount, created_at_time: o.cat ?? null, creation_args: o.args ?? null }], { caller: s.owner, faults: o.faults ?? null }); }
  calls() { return [...this.w.inflight.keys()]; }
  answer(id, r) { return this.w.respond(id, r); }
  pending(i = 0) { const id = this.calls()[i]; return { id, ...this.w.inflight.get(id).call }; }
}
