// One ledger canister under test, a typed client, recorded segments, and observations.
import fs from 'node:fs';
import { Did, hex, unhex, encodeVariant } from './candid.mjs';
import { Canister, Trap } from './replica.mjs';
import { Rng } from './rng.mjs';
import { normalize, DedupIndex } from './expect.mjs';
import { akey, unkey, pkey, unpkey, acc, parseBlock, Fold, LEDGER_ID, MGMT, CMC, ANON, SEC, FEE, U128, U64 } from './ledger.mjs';

const SPEC = new URL('../spec/', import.meta.url);
export const did = new Did(fs.readFileSync(new URL('cycles-ledger.did', SPEC), 'utf8'));
export const cmcDid = new Did(fs.readFileSync(new URL('fake-cmc.did', SPEC), 'utf8'));
export const mgmtDid = new Did('type A = record { canister_id : principal }; service : { deposit_cycles : (A) -> () }');

export class Stop extends Error {}          // ends the episode (after a violation)

export class World {
  constructor({ module, seed, init, time, ledgerCycles = 0n, monitors = [], sink, name = '', obs = {}, upgradeModule = null, flavor = 'vprel' }) {
    this.rng = new Rng(seed); this.seed = seed; this.name = name; this.sink = sink; this.monitors = monitors;
    this.module = module; this.now = time ?? (1_700_000_000n * SEC + this.rng.big(40));
    this.initArgs = init ?? { max_blocks_per_request: 100n, index_id: null, initial_balances: null };
    this.can = new Canister(module, LEDGER_ID, { cycles: ledgerCycles, time: this.now });
    this.start = { cycles: ledgerCycles, time: this.now };
    this.accounts = new Map(); this.pairs = new Map(); this.watch = { pairs: 40, metrics: true, tip: false, ...obs };
    this.dedup = new DedupIndex(); this.chain = []; this.fold = new Fold(); this.segs = 0; this.ops = []; this.trace = []; this.poisoned = null; this.txIndex = new Map(); this.txSoft = new Map();
    this.opByBlock = new Map(); this.inflight = new Map();                // callId -> {op, call}
    this.counters = {}; this.upgrades = 0; this.flavor = flavor; this.upgradeModule = upgradeModule;
    this.viol = 0; this.maxBlocks = this.initArgs.max_blocks_per_request; this.indexId = this.initArgs.index_id;
    this.keepTrace = true;
  }
  count(k, n = 1) { this.counters[k] = (this.counters[k] ?? 0) + n; }

  install() {
    const arg = did.encode(did.init, [{ Init: this.initArgs }]);
    this.log({ do: 'install', init: this.initArgs, time: this.now, cycles: this.can.cycles });
    const r = this.can.install(arg);
    if (r.trap) { this.installTrap = r.trap; return false; }
    if (this.initArgs.initial_balances) for (const b of this.initArgs.initial_balances) this.know(b[0] ?? b['0']);
    this.obs = this.observe();
    const seg = { kind: 'install', t: this.now, pre: null, post: this.obs, blocks: this.obs.fresh, calls: [] };
    this.emit(seg);
    return true;
  }
  log(x) { if (this.keepTrace) this.trace.push(x); }

  know(a) { const k = akey(a); if (!this.accounts.has(k)) this.accounts.set(k, a); return k; }
  knowPair(f, s) { const k = pkey(f, s); if (!this.pairs.has(k) && this.pairs.size < this.watch.pairs) this.pairs.set(k, [f, s]); return k; }
  watchPair(f, s) { this.log({ do: 'pair', pair: [f, s] }); return this.knowPair(f, s); }

  // ---- queries ----
  rawQuery(method, arg, o = {}) { return this.can.query(method, arg, { caller: unhex(o.caller ?? ANON), replicated: o.replicated }); }
  query(method, args, o = {}) {
    const r = this.rawQuery(method, did.encode(did.service[method].args, args), o);
    if (r.kind !== 'reply') return { reject: r };
    return did.decode(did.service[method].rets, r.data)[0];
  }
  // a query that is not answered is seen as -1 by every monitor, and C28 reports it
  balance(a) { const r = this.query('icrc1_balance_of', [a]); if (typeof r === 'bigint') return r; this.deaf ??= { method: 'icrc1_balance_of', account: a, got: r }; return -1n; }
  allowance(f, s) { const r = this.query('icrc2_allowance', [{ account: f, spender: s }]); if (r.reject) this.deaf ??= { method: 'icrc2_allowance', account: f, spender: s, got: r }; return r.reject ? { a: -1n, e: null, reject: r.reject } : { a: r.allowance, e: r.expires_at }; }
  metrics() {
    const r = this.query('http_request', [{ url: '/metrics', method: 'GET', body: '', headers: [] }]);
    if (r.reject) return { reject: r.reject };
    const m = {};
    for (const line of Buffer.from(r.body, 'hex').toString().split('\n')) {
      if (!line || line[0] === '#') continue;
      const p = line.split(' '); m[p[0].replace('cycles_ledger_', '')] = Number(p[1]);
    }
    return m;
  }
  logs() { const r = this.query('http_request', [{ url: '/logs', method: 'GET', body: '', headers: [] }]); return r.reject ? [] : JSON.parse(Buffer.from(r.body, 'hex').toString()).entries; }
  // fetch blocks [from, to) however small the configured page is
  fetchBlocks(from, to) {
    const out = [];
    while (BigInt(from) < to) {
      const r = this.query('icrc3_get_blocks', [[{ start: BigInt(from), length: to - BigInt(from) }]]);
      if (r.reject || !r.blocks.length) break;
      for (const b of r.blocks) { out.push(b); from = Number(b.id) + 1; }
    }
    return out;
  }
  observe() {
    const o = { t: this.now, bal: new Map(), alw: new Map(), cycles: this.can.cycles, certified: this.can.certified ? hex(this.can.certified) : null, fresh: [] };
    for (const [k, a] of this.accounts) o.bal.set(k, this.balance(a));
    for (const [k, [f, s]] of this.pairs) o.alw.set(k, this.allowance(f, s));
    o.supply = this.query('icrc1_total_supply', []); if (typeof o.supply !== 'bigint') { this.deaf ??= { method: 'icrc1_total_supply', got: o.supply }; o.supply = -1n; }
    const head = this.query('icrc3_get_blocks', [[{ start: BigInt(this.chain.length), length: 64n }]]);
    o.len = head.reject ? -1n : head.log_length;
    if (this.watch.metrics) o.metrics = this.metrics();
    if (this.watch.tip) { const c = this.query('icrc3_get_tip_certificate', []); o.tip = c; }
    // new blocks
    if (o.len > BigInt(this.chain.length) && this.maxBlocks > 0n) {
      let bs = head.blocks;
      if (BigInt(this.chain.length + bs.length) < o.len) bs = bs.concat(this.fetchBlocks(this.chain.length + bs.length, o.len));
      for (const b of bs) {
        const pb = parseBlock(b.block); pb.id = b.id; pb.i = this.chain.length;
        this.chain.push(pb); o.fresh.push(pb);
        if (pb.err.length) { this.poisoned ??= `block ${pb.id}: ${pb.err.join('; ')}`; }
        else { this.fold.apply(pb); for (const a of [pb.from, pb.to]) if (a && this.accounts.size < 400) this.know(a); }
      }
      for (const [k, a] of this.accounts) if (!o.bal.has(k)) o.bal.set(k, this.balance(a));
    }
    this.count('observations');
    return o;
  }

  // ---- actions: each makes one segment ----
  emit(seg) {
    seg.i = this.segs++; this.lastSeg = seg;
    if (seg.kind === 'update') { const r = seg.result; this.count('call:' + seg.method + ':' + (seg.trap ? 'trap' : r === undefined ? 'pending' : r === null ? 'Ok' : r.reject ? 'reject' : r.Err ? Object.keys(r.Err)[0] : 'Ok')); } else if (seg.kind === 'callback') this.count('answer:' + seg.resp.label);
    for (const m of this.monitors) m.onSegment(this, seg);
    this.dedup.absorb(this.chain);
    if (this.poisoned && !this.viol) throw new Stop('unparsable block: ' + this.poisoned);
    if (this.viol) throw new Stop('violation');
  }
  violation(prop, code, detail) {
    this.viol++;
    this.sink({ prop, code, detail, world: this });
  }

  // The system holds at most 2^128-1 cycles in all; a deposit cannot bring more than what is left.
  headroom() { let x = this.can.cycles; for (const { call } of this.inflight.values()) x += call.cycles + 10n * FEE; return x >= U128 ? 0n : U128 - x; }
  call(method, args, { caller = ANON, cycles = 0n, raw = null, faults = null, what = null, enc = 0 } = {}) {
    if (cycles > 0n) { const h = this.headroom(), big = 1n << 100n; if (cycles > big) cycles = h > 2n * big ? (cycles + big <= h ? cycles : h - big) : 0n; else if (cycles > h) cycles = 0n; }
    // learn what this call talks about before the pre-observation
    const arg = args && args[0];
    let fresh = false;
    if (arg && typeof arg === 'object') {
      const n0 = this.accounts.size, p0 = this.pairs.size;
      for (const f of ['to', 'from', 'spender']) if (arg[f] && typeof arg[f] === 'object' && this.accounts.size < 3000) this.know(arg[f]);
      if (arg.from_subaccount !== undefined) { this.know(acc(caller, arg.from_subaccount)); if (arg.spender) this.knowPair(acc(caller, arg.from_subaccount), arg.spender); }
      if (arg.spender_subaccount !== undefined && arg.from) this.knowPair(arg.from, acc(caller, arg.spender_subaccount));
      if (!raw) fresh = this.accounts.size !== n0 || this.pairs.size !== p0;
    }
    if (fresh) { for (const [k, a] of this.accounts) if (!this.obs.bal.has(k)) this.obs.bal.set(k, this.balance(a)); for (const [k, [f, s]] of this.pairs) if (!this.obs.alw.has(k)) this.obs.alw.set(k, this.allowance(f, s)); }
    const pre = this.obs;
    let foldPre = null;
    if (!raw && arg) { const n = normalize(method, arg, caller, cycles); if (n && n.from) foldPre = { alw: n.spender ? this.fold.alw.get(pkey(n.from, n.spender)) ?? null : null, bal: this.fold.get(n.from) }; }
    const bytes = raw ?? (enc ? encodeVariant(did, did.service[method].args, args, enc) : did.encode(did.service[method].args, args));
    if (enc) this.count('other encodings of arguments');
    this.log({ do: 'call', enc: enc || undefined, method, args: raw ? null : args, raw: raw ? hex(raw) : undefined, caller, cycles, faults, what: what ?? undefined });
    if (faults) { this.can.liquidOverride = faults.liquid ?? null; const code = faults.perform ?? 0; this.can.performFault = code ? () => code : null; }
    const r = this.can.update(method, bytes, { caller: unhex(caller), cycles });
    this.can.liquidOverride = null; this.can.performFault = null;
    const nrm = raw ? null : normalize(method, arg, caller, cycles);
    const op = { id: this.ops.length, n: nrm, foldPre,  method, args: arg ?? null, argList: args, raw, caller, sent: cycles, ctx: r.ctx, t: this.now, faults, malformed: raw ? what : null, done: false, result: null, blocks: [], refund: 0n };
    if (this.keepOps !== false) this.ops.push(op);
    return this.finish('update', op, r, pre, null);
  }
  finish(kind, op, r, pre, extra) {
    const seg = { kind, t: this.now, op, method: op.method, pre, trap: r.trap, attempts: r.m ? r.m.attempts : [], accepted: r.m && !r.trap ? r.m.accepted : 0n, calls: [], burned: r.m && !r.trap ? r.m.burned : 0n, certSets: r.m ? r.m.certSets : 0, ...(extra ?? {}) };
    if (!r.trap && r.m) for (const c of r.m.out) { const call = this.can.calls.get(c.id); if (call) { this.inflight.set(c.id, { op, call }); this.maxInflight = Math.max(this.maxInflight ?? 0, this.inflight.size); seg.calls.push(call); } }
    if (r.ctx.responded && !op.done) {
      op.done = true; op.doneT = this.now;
      const res = r.ctx.result;
      if (res.kind === 'reply') {
        try { op.result = did.decode(did.service[op.method].rets, res.data)[0]; if (op.result === undefined) op.result = null; } catch (e) { op.result = { undecodable: String(e.message), data: hex(res.data) }; }
      } else op.result = { reject: { code: res.code, msg: res.msg, trap: res.trap } };
      seg.result = op.result; op.refund = r.ctx.refund;
    }
    this.log({ '=': r.trap ? 'trap: ' + r.trap.msg : seg.result !== undefined ? seg.result : 'pending', calls: seg.calls.map((c) => c.id) });
    if (op.n && op.n.from && op.n.spender) seg.foldAlw = this.fold.alw.get(pkey(op.n.from, op.n.spender)) ?? null;
    this.obs = this.observe(); seg.post = this.obs; seg.blocks = this.obs.fresh; op.blocks.push(...seg.blocks); if (kind === 'update' && seg.blocks.length) this.opByBlock.set(seg.blocks[0].i, op);
    this.emit(seg);
    return op;
  }
  respond(callId, resp) {
    const { op, call } = this.inflight.get(callId);
    this.inflight.delete(callId);
    const pre = this.obs;
    this.log({ do: 'respond', callId, op: op.id, resp: { ...resp, data: resp.data ? hex(resp.data) : undefined } });
    const r = this.can.deliver(callId, resp);
    this.finish('callback', op, r, pre, { call, resp });
    return op;
  }
  advanceTo(t) {
    if (t > U64 - 1n) t = U64 - 1n;
    if (t <= this.now) return;
    this.log({ do: 'time', t });
    this.now = t; this.can.time = t; this.can.tick();
    const pre = this.obs; this.obs = this.observe();
    this.emit({ kind: 'time', t, pre, post: this.obs, blocks: this.obs.fresh, calls: [] });
  }
  advance(dt) { this.advanceTo(this.now + dt); }
  upgrade(arg, { module, raw, expectTrap = !!(arg && arg.Init) } = {}) {
    const bytes = raw ?? (arg === undefined ? did.encode([], []) : did.encode(did.init, [arg]));
    this.log({ do: 'upgrade', arg, raw: raw ? hex(raw) : undefined, expectTrap: expectTrap || undefined, flavor: module && module !== this.can.module ? 'other' : undefined });
    const pre = this.obs;
    const r = this.can.upgrade(bytes, module ?? this.can.module);
    if (!r.trap && arg && arg.Upgrade) {
      if (arg.Upgrade.max_blocks_per_request !== null && arg.Upgrade.max_blocks_per_request !== undefined) this.maxBlocks = arg.Upgrade.max_blocks_per_request;
      const ci = arg.Upgrade.change_index_id; if (ci) this.indexId = 'SetTo' in ci ? ci.SetTo : null;
    }
    if (!r.trap) this.upgrades++;
    this.obs = this.observe();
    this.emit({ kind: 'upgrade', t: this.now, arg, rawArg: raw, module, trap: r.trap, expectTrap, pre, post: this.obs, blocks: this.obs.fresh, calls: [] });
    return r;
  }
  // many calls observed once, at the end (bulk preparation)
  bulk(list) {
    const pre = this.obs, results = [];
    for (const c of list) {
      if (c.know !== false && c.args[0]) { if (c.args[0].to && typeof c.args[0].to === 'object') this.know(c.args[0].to); }
      this.log({ do: 'bulk', method: c.method, args: c.args, caller: c.caller, cycles: c.cycles ?? 0n });
      const r = this.can.update(c.method, did.encode(did.service[c.method].args, c.args), { caller: unhex(c.caller), cycles: c.cycles ?? 0n });
      results.push(r.trap ? { trap: r.trap } : r.ctx.result);
    }
    this.log({ do: 'bulkend' });
    for (const [k, a] of this.accounts) if (!pre.bal.has(k)) pre.bal.set(k, 0n);
    this.obs = this.observe();
    this.emit({ kind: 'bulk', t: this.now, pre, post: this.obs, blocks: this.obs.fresh, calls: [], n: list.length, list });
    return results;
  }
  // answer everything that is outstanding
  drain(f) { while (this.inflight.size) { const ids = [...this.inflight.keys()]; const id = ids[this.rng.int(ids.length)]; this.respond(id, f(this.inflight.get(id))); } }
  end() { for (const m of this.monitors) if (m.onEnd) m.onEnd(this); if (this.viol) throw new Stop('violation'); }
}

// ---- environment answers ----
const te = new TextEncoder();
export const okDeposit = () => ({ kind: 'reply', data: mgmtDid.encode([], []), refund: 0n, label: 'deposited' });
export const rej = (code, msg, cycles) => ({ kind: 'reject', code, msg, refund: cycles, label: 'reject' + code });
export const cmcOk = (canister) => ({ kind: 'reply', data: cmcDid.encode(cmcDid.service.create_canister.rets, [{ Ok: canister }]), refund: 0n, label: 'created', canister });
export const cmcRefunded = (amount, msg = 'no') => ({ kind: 'reply', data: cmcDid.encode(cmcDid.service.create_canister.rets, [{ Err: { Refunded: { create_error: msg, refund_amount: amount } } }]), refund: amount, label: 'refunded', refunded: amount, msg });
export const cmcRefundFailed = (a = 'x', b = 'y') => ({ kind: 'reply', data: cmcDid.encode(cmcDid.service.create_canister.rets, [{ Err: { RefundFailed: { create_error: a, refund_error: b } } }]), refund: 0n, label: 'refundfailed', msgs: [a, b] });
export const garbage = (cycles, data = '00') => ({ kind: 'reply', data: unhex(data), refund: cycles, label: 'garbage' });
