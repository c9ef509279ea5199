import fs from 'node:fs';
import { build } from './engine/build.mjs';
import { Canister } from './engine/replica.mjs';
import { Did, unhex } from './engine/candid.mjs';
import { cmcDid, did } from './engine/world.mjs';
import { CMC, LEDGER_ID, acc } from './engine/ledger.mjs';
const wasm = build(['vprel'], ['depositor', 'fake-cmc']);
const mod = (p) => new WebAssembly.Module(fs.readFileSync(wasm[p + ':vprel']));
const T0 = 1_700_000_000_000_000_000n, A = unhex('00000000000000a10101');
// the memo the depositor hands to the ledger when asked to deposit with this one
export const dep = (memo) => depositCall(memo, 10n ** 9n).args.memo;
export function depositCall(memo, cycles) {
  const D = new Did(fs.readFileSync(new URL('./spec/depositor.did', import.meta.url), 'utf8'));
  const c = new Canister(mod('depositor'), '00000000000000d50101', { cycles: 10n ** 25n, time: T0 });
  c.install(D.encode(D.init, [{ ledger_id: LEDGER_ID }]));
  c.update('deposit', D.encode(D.service.deposit.args, [{ cycles, to: acc('00000000000000a10101'), memo }]), { caller: A });
  const call = [...c.calls.values()][0]; return { cycles: call.cycles, args: did.decode(did.service.deposit.args, call.arg)[0] };
}
export function cmc() {
  const c = new Canister(mod('fake-cmc'), CMC, { cycles: 0n, time: T0 }); c.install(new Uint8Array(0));
  const last = () => { const q = c.query('last_create_canister_args', cmcDid.encode([], []), {}); return q.kind === 'reply' ? cmcDid.decode(cmcDid.service.last_create_canister_args.rets, q.data)[0] : q.kind; };
  const go = (m, args, cycles) => { const x = c.update(m, cmcDid.encode(cmcDid.service[m].args, args), { caller: A, cycles }); return x.ctx.responded ? cmcDid.decode(cmcDid.service[m].rets, x.ctx.result.data)[0] : undefined; };
  return { fail: (e) => go('fail_next_create_canister_with', [e], 0n), create: (cycles, subnet = null) => go('create_canister', [{ settings: null, subnet_selection: subnet }], cycles), last };
}
