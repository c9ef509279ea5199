// The real depositor and stand-in CMC around the real ledger, messages delivered in any order.
import { Canister } from '../engine/replica.mjs';
import { Did, hex, unhex } from '../engine/candid.mjs';
import fs from 'node:fs';
import { cmcDid, did, okDeposit, rej } from '../engine/world.mjs';
import { acc, FEE, CMC, LEDGER_ID, Z32, SEC, U64 } from '../engine/ledger.mjs';
import { D } from './directed.mjs';
import { creationArgs } from './random.mjs';
import { MIN } from '../monitors/companions.mjs';
const depDid = new Did(fs.readFileSync(new URL('../spec/depositor.did', import.meta.url), 'utf8'));
const mgmt = new Did(fs.readFileSync(new URL('../spec/fake-cmc.did', import.meta.url), 'utf8').replace(/service[\s\S]*/, '') + '\nservice : { create_canister : (record { settings : opt CanisterSettings; sender_canister_version : opt nat64 }) -> (record { canister_id : principal }) }');
const DEP = '00000000000000d50101', A = '00000000000000a10101', B = '00000000000000b20101', S1 = '11'.repeat(32);
const NO = { onSegment() {} };

export function companions(mk, r, v) {
  const d = new D(mk, r, { cycles: 0n }), w = d.w, mon = w.monitors.find((m) => m.prop === 'C30') ?? null;
  if (!mon) return w;
  const dep = new Canister(mk.companions.depositor, DEP, { cycles: v % 5 === 3 ? 1n << 90n : 40n * MIN, time: w.now }), cmc = new Canister(mk.companions['fake-cmc'], CMC, { cycles: r.pick([0n, MIN]), time: w.now });
  const ledger = v % 9 === 8 ? '00000000000000990101' : LEDGER_ID; // an installation that names another ledger
  if (dep.install(depDid.encode(depDid.init, [{ ledger_id: ledger }])).trap) { mon.bad(w, 'the depositor cannot be installed', {}); return w; }
  cmc.install(new Uint8Array(0));
  let away = 0n, outside = 0n, scripted = null, last = null, steps = 0; const deps = new Map(), jobs = [], start = dep.cycles + cmc.cycles + w.can.cycles;
  const dec = (D_, m, data) => { try { return D_.decode(D_.service[m].rets, data)[0]; } catch (e) { mon.bad(w, 'an answer of a companion canister does not decode', { method: m, error: String(e.message) }); return { undecodable: true }; } };
  const out = (can, m, trap) => trap ? [] : m.out.map((c) => can.calls.get(c.id)).filter(Boolean);
  const res = (D_, ctx, m) => !ctx.responded ? undefined : ctx.result.kind === 'reply' ? dec(D_, m, ctx.result.data) : { reject: ctx.result.msg };
  const stop = () => { if (w.viol) { w.emit({ kind: 'time', t: w.now, pre: w.obs, post: w.obs, blocks: [], calls: [] }); } };
  const tick = (dt) => { w.advance(dt); dep.time = w.now; cmc.time = w.now; };
  const open = () => deps.size + jobs.length > 0 ? '+' : '';
  // --- depositor ---
  const ask = () => {
    const arg = { cycles: r.pick([0n, 1n, FEE - 1n, FEE, FEE + 1n, 2n * FEE, MIN + 2n * FEE, 3n * MIN, dep.cycles, dep.cycles + 1n, 1n << 100n, U64, U64 + 1n + r.bigBelow(MIN), r.bigBelow(MIN)]), to: acc(r.pick([A, B, DEP]), r.pick([null, null, Z32, S1])), memo: r.pick([null, null, '', '0a', r.bytes(32), r.bytes(33)]) };
    const held = dep.cycles; const x = dep.update('deposit', depDid.encode(depDid.service.deposit.args, [arg]), { caller: unhex(r.pick([A, B])) });
    const cs = out(dep, x.m, x.trap);
    for (const c of cs) { try { c.args = did.decode(did.service.deposit.args, c.arg)[0]; } catch (e) { mon.bad(w, 'the depositor sends something the ledger cannot decode', String(e.message)); } }
    mon.sent(w, { arg, held, after: dep.cycles, calls: cs.map((c) => ({ guaranteed: c.bestEffort === null, callee: c.callee, method: c.method, cycles: c.cycles, args: c.args })), ledger, open: open() });
    for (const c of cs) deps.set(c.id, { c, arg, ctx: x.ctx });
    stop();
  };
  const land = () => { // a pending deposit reaches the ledger and is answered
    const ids = [...deps.keys()]; if (!ids.length) return; const id = r.pick(ids), { c, arg, ctx } = deps.get(id); deps.delete(id);
    const before = dep.cycles; let resp, ok = null, block = null;
    if (ledger !== LEDGER_ID || r.bool(0.1)) resp = { kind: 'reject', code: r.pick([2, 3, 4, 5]), msg: 'unavailable', refund: c.cycles };
    else {
      const n = w.chain.length, op = w.call('deposit', [c.args], { caller: DEP, cycles: c.cycles }), rr = op.ctx.result;
      if (rr.kind === 'reply') { ok = op.result; block = w.chain[n]; resp = { kind: 'reply', data: rr.data, refund: op.ctx.refund }; } else resp = { kind: 'reject', code: rr.code, msg: rr.msg, refund: op.ctx.refund };
    }
    const x = dep.deliver(id, resp);
    mon.deposited(w, { arg, ledgerOk: ok, block: block && { op: block.op, amt: block.amt }, before, after: dep.cycles, result: res(depDid, ctx, 'deposit'), open: open() });
    stop();
  };
  // --- creations ---
  const create = (from, arg, bytes, cycles, done) => {
    const k0 = cmc.cycles, x = cmc.update('create_canister', bytes, { caller: unhex(from), cycles });
    const cs = out(cmc, x.m, x.trap); for (const c of cs) c.args = (() => { try { return mgmt.decode(mgmt.service.create_canister.args, c.arg)[0]; } catch (e) { mon.bad(w, 'the creation request does not decode', String(e.message)); return {}; } })();
    const e = { from: from === LEDGER_ID ? 'ledger' : 'other', arg, cycles, scripted, kept: cmc.cycles - k0, calls: cs.map((c) => ({ callee: c.callee, method: c.method, cycles: c.cycles, args: c.args })), result: res(cmcDid, x.ctx, 'create_canister'), open: open() };
    if (x.trap) mon.bad(w, 'a creation request trapped', { ...e, trap: x.trap });
    mon.creation(w, e);
    if (cycles >= MIN) { last = arg; scripted = null; }
    stop();
    if (x.ctx.responded) return done(x.ctx);
    for (const c of cs) jobs.push({ c, ctx: x.ctx, arg, cycles, done, tries: 0, from: e.from });
  };
  // (a hard failure makes the stand-in trap after it took the cycles: never towards the ledger, which relies on rejections returning them)
  const answer = () => {
    if (!jobs.length) return; const i = r.int(jobs.length), j = jobs[i]; jobs.splice(i, 1);
    const how = r.weighted([['ok', 6], ['exists', j.tries > 3 ? 0 : 3], ['fail', j.from === 'ledger' ? 0 : 1]]), canister = '0000000000' + r.bytes(3) + '0101';
    const x = cmc.deliver(j.c.id, how === 'ok' ? { kind: 'reply', data: mgmt.encode(mgmt.service.create_canister.rets, [{ canister_id: canister }]), refund: 0n } : { kind: 'reject', code: r.pick([3, 4, 5]), msg: how === 'exists' ? 'the canister id already exists here' : r.pick(['no', 'canister id is taken', 'already exists']), refund: j.c.cycles });
    if (how === 'ok') outside += j.c.cycles;
    const cs = out(cmc, x.m, x.trap); for (const c of cs) try { c.args = mgmt.decode(mgmt.service.create_canister.args, c.arg)[0]; } catch { c.args = {}; }
    mon.managed(w, { answer: how, canister, tries: j.tries, from: j.from, arg: j.arg, cycles: j.cycles, calls: cs.map((c) => ({ callee: c.callee, method: c.method, cycles: c.cycles, args: c.args })), result: res(cmcDid, j.ctx, 'create_canister'), open: open() });
    stop();
    if (j.ctx.responded) j.done(j.ctx); else for (const c of cs) jobs.push({ ...j, c, tries: j.tries + 1 });
  };
  const direct = () => { const arg = creationArgs(r, [A, B]) ?? { settings: null, subnet_selection: null }; const cycles = r.pick([0n, 1n, MIN - 1n, MIN, MIN + 1n, 2n * MIN, MIN + r.bigBelow(MIN)]); outside -= cycles; create(r.pick([A, B]), arg, cmcDid.encode(cmcDid.service.create_canister.args, [arg]), cycles, (ctx) => { outside += ctx.refund; }); };
  const script = () => { const e = r.pick([() => ({ Refunded: { create_error: r.pick(['', 'no', 'x'.repeat(40)]), refund_amount: r.pick([0n, 1n, FEE, MIN - 1n, MIN, r.bigBelow(MIN)]) } }), () => ({ RefundFailed: { create_error: 'a', refund_error: 'b' } })])(); const x = cmc.update('fail_next_create_canister_with', cmcDid.encode(cmcDid.service.fail_next_create_canister_with.args, [e]), { caller: unhex(A) }); if (x.trap || x.ctx.result.kind !== 'reply') mon.bad(w, 'a failure cannot be scripted', { e }); scripted = e; stop(); };
  // ledger -> CMC / management canister
  const carry = () => {
    const ids = d.calls().filter((id) => !w.inflight.get(id).carried); if (!ids.length) return; const id = r.pick(ids), f = w.inflight.get(id), c = f.call; f.carried = true;
    if (c.callee !== CMC) { const ok = r.bool(0.7); if (ok) outside += c.cycles; w.respond(id, ok ? okDeposit() : rej(4, 'no', c.cycles)); return; }
    let arg; try { arg = cmcDid.decode(cmcDid.service.create_canister.args, c.arg)[0]; } catch { arg = null; }
    create(LEDGER_ID, arg, c.arg, c.cycles, (ctx) => {
      const rr = ctx.result; if (rr.kind !== 'reply') return w.respond(id, rej(rr.code, rr.msg, ctx.refund));
      const x = dec(cmcDid, 'create_canister', rr.data), base = { kind: 'reply', data: rr.data, refund: ctx.refund };
      if (x.undecodable) return stop();
      w.respond(id, x.Ok !== undefined ? { ...base, label: 'created', canister: x.Ok } : x.Err.Refunded ? { ...base, label: 'refunded', refunded: x.Err.Refunded.refund_amount, msg: x.Err.Refunded.create_error } : { ...base, label: 'refundfailed', msgs: [x.Err.RefundFailed.create_error, x.Err.RefundFailed.refund_error] });
    });
  };
  const use = () => { const f = acc(r.pick([A, B]), r.pick([null, S1])), amount = r.pick([MIN - 1n, MIN, MIN + FEE, 5n * FEE]); const cr = creationArgs(r, [A, B]); r.pick([() => w.call('create_canister', [{ from_subaccount: f.subaccount, amount, created_at_time: null, creation_args: cr }], { caller: f.owner }), () => d.wd(f, 3n * FEE), () => d.xfer(f, acc(B), FEE)])(); };
  const check = () => { const g = cmc.query('last_create_canister_args', cmcDid.encode([], [])); mon.lastArgs(w, { want: last, got: g.kind === 'reply' ? dec(cmcDid, 'last_create_canister_args', g.data) : { reject: g.msg } }); const q = cmc.query('get_icp_xdr_conversion_rate', cmcDid.encode([], [])); if (q.kind !== 'reply') mon.bad(w, 'the conversion rate query failed', q); else mon.rate(w, { got: dec(cmcDid, 'get_icp_xdr_conversion_rate', q.data), t: w.now, i: steps % 5 }); stop(); };
  check();
  for (; steps < 40; steps++) r.weighted([[ask, 4], [land, 4], [direct, 2], [script, 2], [carry, 3], [answer, 4], [use, 4], [check, 1], [() => tick(r.pick([1n, SEC, 999_999_999n])), 1]])();
  for (let i = 0; i < 200 && (deps.size || jobs.length || d.calls().length); i++) { land(); carry(); answer(); }
  check();
  if (!d.calls().length && !deps.size && !jobs.length) mon.total(w, { start, total: dep.cycles + cmc.cycles + w.can.cycles + outside, held: w.can.cycles, supply: w.obs.supply, steps: Math.min(w.chain.length, 30) });
  stop();
  w.end(); return w;
}
