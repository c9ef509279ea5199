// A single-canister host for the real canister Wasm: the ic0 system API, message
// execution with trap rollback, query isolation, inter-canister calls whose answers the
// harness schedules, cycle accounting, and upgrades. Nothing here knows about the ledger.
import { hex, unhex } from './candid.mjs';

const PAGE = 4096, WPAGE = 65536n;
const te = new TextEncoder(), td = new TextDecoder();

export class Trap extends Error { constructor(msg, kind) { super(msg); this.kind = kind; } }
export class HostBug extends Error {}

class Stable {
  constructor() { this.pages = []; this.size = 0n; this.journal = null; this.oldSize = 0n; this.writes = 0; this.bytes = 0; this.limit = 1n << 22n; }
  begin() { this.journal = new Map(); this.oldSize = this.size; }
  commit() { this.journal = null; }
  rollback() { for (const [i, p] of this.journal) this.pages[i] = p; this.size = this.oldSize; this.journal = null; }
  grow(n) { const old = this.size; if (old + n > this.limit) return -1n; this.size = old + n; return old; }
  chk(off, n) { if (off + n > this.size * WPAGE) throw new Trap('stable memory out of bounds', 'host'); }
  read(dst, off64, n64, heap) {
    this.chk(off64, n64); this.bytes += Number(n64);
    let off = Number(off64), n = Number(n64), d = dst;
    while (n > 0) {
      const pi = Math.floor(off / PAGE), po = off - pi * PAGE, k = Math.min(n, PAGE - po), p = this.pages[pi];
      if (p) { if (k === PAGE) heap.set(p, d); else heap.set(p.subarray(po, po + k), d); } else heap.fill(0, d, d + k);
      off += k; n -= k; d += k;
    }
  }
  write(off64, src, n64, heap) {
    this.chk(off64, n64);
    if (!this.journal) throw new HostBug('stable write outside a message');
    this.writes++; this.bytes += Number(n64);
    let off = Number(off64), n = Number(n64), s = src;
    while (n > 0) {
      const pi = Math.floor(off / PAGE), po = off - pi * PAGE, k = Math.min(n, PAGE - po);
      let p = this.pages[pi];
      if (!this.journal.has(pi)) { this.journal.set(pi, p); p = p ? p.slice() : new Uint8Array(PAGE); this.pages[pi] = p; }
      p.set(heap.subarray(s, s + k), po);
      off += k; n -= k; s += k;
    }
  }
}

// kinds of execution
const UPD = 'update', QRY = 'query', INIT = 'init', REPLY = 'reply', REJECT = 'reject', CLEAN = 'cleanup';

// the time of the check is over, or another worker has found a violation
export class Cut extends Error {}

export class Canister {
  constructor(module, id, opts = {}) {
    this.module = module; this.id = id; this.cycles = opts.cycles ?? 0n;
    this.stable = new Stable(); this.certified = null; this.time = opts.time ?? 0n;
    this.version = 1n; this.calls = new Map(); this.nextCall = 1; this.nextCtx = 1; this.ctxs = new Map();
    this.liquidOverride = null; this.performFault = null; this.callCost = 0n; this.timer = 0n;
    this.debug = []; this.stats = { execs: 0, traps: 0, restores: 0, reinst: 0 };
    this.cert = opts.cert ?? ((c) => te.encode('certificate-for:' + (c ? hex(c) : 'none')));
    this.m = null; // running message
    this.instantiate();
  }

  instantiate() {
    this.inst = new WebAssembly.Instance(this.module, { ic0: this.imports() });
    this.ex = this.inst.exports; this.mem = this.ex.memory;
    this.table = this.ex.__indirect_function_table; this.sp = this.ex.__stack_pointer;
    this.snap = null; this.dirty = false;
    this.stats.reinst++;
  }
  heap() { const b = this.mem.buffer; if (this._hb !== b) { this._hb = b; this._h = new Uint8Array(b); this._dv = new DataView(b); } return this._h; }
  dv() { this.heap(); return this._dv; }
  str(p, n) { return td.decode(this.heap().subarray(p, p + n)); }
  blob(p, n) { p >>>= 0; n >>>= 0; const h = this.heap(); if (p + n > h.length) throw new Trap('heap out of bounds', 'host'); return h.slice(p, p + n); }
  put(dst, bytes, off, n) {
    dst >>>= 0; off >>>= 0; n >>>= 0;
    if (off + n > bytes.length) throw new Trap('copy out of bounds', 'host');
    this.heap().set(bytes.subarray(off, off + n), dst);
  }
  put128(dst, v) { const d = this.dv(); dst >>>= 0; d.setBigUint64(dst, v & 0xffffffffffffffffn, true); d.setBigUint64(dst + 8, v >> 64n, true); }

  imports() {
    const c = this;
    const need = (name, ...kinds) => { if (!c.m || !kinds.includes(c.m.kind)) throw new Trap(`ic0.${name} not allowed in ${c.m ? c.m.kind : 'start'}`, 'host'); return c.m; };
    const any = (name) => need(name, UPD, QRY, INIT, REPLY, REJECT, CLEAN);
    const u128 = (h, l) => (BigInt.asUintN(64, h) << 64n) | BigInt.asUintN(64, l);
    const api = {
      time: () => c.m ? BigInt.asIntN(64, c.m.time) : (() => { throw new Trap('time in start', 'host'); })(),
      msg_arg_data_size: () => need('msg_arg_data_size', UPD, QRY, INIT, REPLY).arg.length,
      msg_arg_data_copy: (d, o, n) => c.put(d, need('msg_arg_data_copy', UPD, QRY, INIT, REPLY).arg, o, n),
      msg_caller_size: () => any('msg_caller_size').caller.length,
      msg_caller_copy: (d, o, n) => c.put(d, any('msg_caller_copy').caller, o, n),
      msg_reject_code: () => need('msg_reject_code', REPLY, REJECT).rejectCode,
      msg_reject_msg_size: () => need('msg_reject_msg_size', REJECT).rejectMsg.length,
      msg_reject_msg_copy: (d, o, n) => c.put(d, need('msg_reject_msg_copy', REJECT).rejectMsg, o, n),
      msg_deadline: () => 0n,
      msg_reply_data_append: (s, n) => { const m = need('msg_reply_data_append', UPD, QRY, REPLY, REJECT); if (m.ctx.responded || m.response) throw new Trap('already responded', 'host'); m.replyBuf.push(c.blob(s, n)); },
      msg_reply: () => { const m = need('msg_reply', UPD, QRY, REPLY, REJECT); if (m.ctx.responded || m.response) throw new Trap('already responded', 'host'); m.response = { kind: 'reply', data: Buffer.concat(m.replyBuf) }; m.replyBuf = []; },
      msg_reject: (s, n) => { const m = need('msg_reject', UPD, QRY, REPLY, REJECT); if (m.ctx.responded || m.response) throw new Trap('already responded', 'host'); m.response = { kind: 'reject', code: 4, msg: c.str(s, n) }; },
      msg_cycles_available128: (d) => { const m = need('msg_cycles_available128', UPD, REPLY, REJECT); c.put128(d, m.ctx.responded || m.response ? 0n : m.avail); },
      msg_cycles_refunded128: (d) => c.put128(d, need('msg_cycles_refunded128', REPLY, REJECT).refund),
      msg_cycles_accept128: (h, l, d) => { const m = need('msg_cycles_accept128', UPD, REPLY, REJECT); const max = u128(h, l); const av = m.ctx.responded || m.response ? 0n : m.avail; const k = max < av ? max : av; m.avail -= k; c.cycles += k; m.accepted += k; c.put128(d, k); },
      cycles_burn128: (h, l, d) => { any('cycles_burn128'); const w = u128(h, l); const k = w < c.cycles ? w : c.cycles; c.cycles -= k; c.m.burned += k; c.put128(d, k); },
      canister_self_size: () => unhex(c.id).length,
      canister_self_copy: (d, o, n) => c.put(d, unhex(c.id), o, n),
      canister_cycle_balance128: (d) => c.put128(d, c.cycles),
      canister_liquid_cycle_balance128: (d) => c.put128(d, c.liquidOverride !== null && c.liquidOverride < c.cycles ? c.liquidOverride : c.cycles),
      canister_status: () => 1,
      canister_version: () => c.version,
      subnet_self_size: () => 1, subnet_self_copy: (d, o, n) => c.put(d, new Uint8Array([1]), o, n),
      msg_method_name_size: () => te.encode(c.m.method).length,
      msg_method_name_copy: (d, o, n) => c.put(d, te.encode(c.m.method), o, n),
      accept_message: () => { c.m.taken = true; },
      call_new: (cs, cn, ns, nn, rf, re, jf, je) => {
        const m = need('call_new', UPD, REPLY, REJECT);
        c.dropCall(m);
        m.cur = { callee: hex(c.blob(cs, cn)), method: c.str(ns >>> 0, nn >>> 0), rf, re, jf, je, cf: null, ce: 0, arg: [], cycles: 0n, bestEffort: null };
      },
      call_on_cleanup: (f, e) => { const m = need('call_on_cleanup', UPD, REPLY, REJECT); if (!m.cur || m.cur.cf !== null) throw new Trap('call_on_cleanup', 'host'); m.cur.cf = f; m.cur.ce = e; },
      call_data_append: (s, n) => { const m = need('call_data_append', UPD, REPLY, REJECT); if (!m.cur) throw new Trap('no call', 'host'); m.cur.arg.push(c.blob(s, n)); },
      call_with_best_effort_response: (t) => { const m = need('call_with_best_effort_response', UPD, REPLY, REJECT); if (!m.cur) throw new Trap('no call', 'host'); m.cur.bestEffort = t; },
      call_cycles_add128: (h, l) => {
        const m = need('call_cycles_add128', UPD, REPLY, REJECT); if (!m.cur) throw new Trap('no call', 'host');
        const a = u128(h, l); const liq = c.liquidOverride !== null && c.liquidOverride < c.cycles ? c.liquidOverride : c.cycles;
        if (a > liq) throw new Trap('Canister does not have enough cycles for the call', 'cycles');
        c.cycles -= a; m.cur.cycles += a;
      },
      call_perform: () => {
        const m = need('call_perform', UPD, REPLY, REJECT); if (!m.cur) throw new Trap('no call', 'host');
        const call = m.cur; m.cur = null;
        const fault = c.performFault ? c.performFault(call) : 0;
        m.attempts.push({ callee: call.callee, method: call.method, cycles: call.cycles, fault });
        if (fault) { c.cycles += call.cycles; return fault; }
        call.arg = Buffer.concat(call.arg); m.out.push(call); return 0;
      },
      stable64_size: () => { any('stable64_size'); return c.stable.size; },
      stable64_grow: (n) => { any('stable64_grow'); return c.stable.grow(BigInt.asUintN(64, n)); },
      stable64_write: (o, s, n) => { any('stable64_write'); c.stable.write(BigInt.asUintN(64, o), Number(BigInt.asUintN(64, s)), BigInt.asUintN(64, n), c.heap()); },
      stable64_read: (d, o, n) => { any('stable64_read'); c.stable.read(Number(BigInt.asUintN(64, d)), BigInt.asUintN(64, o), BigInt.asUintN(64, n), c.heap()); },
      root_key_size: () => 0, root_key_copy: () => {},
      certified_data_set: (s, n) => { need('certified_data_set', UPD, INIT, REPLY, REJECT, CLEAN); n >>>= 0; if (n > 32) throw new Trap('certified data too long', 'host'); c.certified = c.blob(s, n); c.m.certSets++; },
      data_certificate_present: () => { any('data_certificate_present'); return c.m.kind === QRY && !c.m.replicated ? 1 : 0; },
      data_certificate_size: () => { if (need('data_certificate_size', QRY).replicated) throw new Trap('no certificate', 'host'); return c.cert(c.certified).length; },
      data_certificate_copy: (d, o, n) => { if (need('data_certificate_copy', QRY).replicated) throw new Trap('no certificate', 'host'); c.put(d, c.cert(c.certified), o, n); },
      global_timer_set: (t) => { const o = c.timer; c.timer = BigInt.asUintN(64, t); return o; },
      performance_counter: () => 0n,
      is_controller: () => 0,
      in_replicated_execution: () => (c.m.kind === QRY && !c.m.replicated ? 0 : 1),
      cost_call: (a, b, d) => c.put128(d, c.callCost),
      cost_create_canister: (d) => c.put128(d, 500_000_000_000n),
      cost_http_request: (a, b, d) => c.put128(d, 0n),
      cost_sign_with_ecdsa: () => 1, cost_sign_with_schnorr: () => 1, cost_vetkd_derive_key: () => 1,
      env_var_count: () => 0, env_var_name_size: () => { throw new Trap('env', 'host'); }, env_var_name_copy: () => { throw new Trap('env', 'host'); },
      env_var_name_exists: () => 0, env_var_value_size: () => { throw new Trap('env', 'host'); }, env_var_value_copy: () => { throw new Trap('env', 'host'); },
      debug_print: (s, n) => { c.m && c.m.prints.push(c.str(s >>> 0, n >>> 0)); },
      trap: (s, n) => { throw new Trap(c.str(s >>> 0, n >>> 0), 'explicit'); },
    };
    return api;
  }
  dropCall(m) { if (m.cur) { this.cycles += m.cur.cycles; m.cur = null; } }

  // ---- heap snapshots ----
  // The heap at the end of the last committed update; queries run on top of it and are discarded.
  takeSnap() {
    const h = this.heap(), n = h.length;
    if (!this.snapBuf || this.snapBuf.length < n) this.snapBuf = new Uint8Array(n);
    this.snapBuf.set(h); this.snap = { len: n, sp: this.sp ? this.sp.value : 0 };
  }
  restoreSnap() {
    const h = this.heap();
    h.set(this.snapBuf.subarray(0, this.snap.len)); if (h.length > this.snap.len) h.fill(0, this.snap.len);
    if (this.sp) this.sp.value = this.snap.sp;
    this.stats.restores++;
  }

  newMsg(kind, o) {
    return { kind, time: this.time, arg: o.arg ?? new Uint8Array(0), caller: o.caller ?? new Uint8Array([4]), method: o.method ?? '',
      ctx: o.ctx, avail: o.ctx ? o.ctx.avail : 0n, accepted: 0n, burned: 0n, replyBuf: [], response: null, cur: null, out: [], attempts: [], rejectCode: o.rejectCode ?? 0,
      rejectMsg: o.rejectMsg ?? new Uint8Array(0), refund: o.refund ?? 0n, prints: [], certSets: 0, replicated: !!o.replicated };
  }
  // work of an execution: function entries and loop iterations (metered modules only), bytes moved from and to stable memory
  workMark() { const g = this.ex.__work; return [g ? g.value : 0n, this.stable.bytes]; }
  workSince([g0, b0]) { const g = this.ex.__work; this.work = { steps: g ? Number(g.value - g0) : 0, bytes: this.stable.bytes - b0 }; }
  // run one execution; on a trap every effect is undone. Returns {trap?} ; m carries the rest.
  run(m, fn) {
    if (this.m) throw new HostBug('re-entrant execution');
    if (Canister.over && Canister.over()) throw new Cut('cut');
    if (this.dirty) { this.restoreSnap(); this.dirty = false; }
    if (!this.snap) this.takeSnap();
    const cycles0 = this.cycles, cert0 = this.certified, timer0 = this.timer;
    this.stable.begin(); this.m = m; this.stats.execs++;
    const mark = this.workMark();
    let trap = null;
    const beat = Canister.beat; if (beat) beat[0] = Date.now();
    try { fn(); } catch (e) {
      if (e instanceof Trap) trap = { msg: e.message, kind: e.kind };
      else if (e instanceof WebAssembly.RuntimeError) trap = { msg: String(e.message), kind: 'wasm' };
      else if (e instanceof RangeError && /call stack/i.test(e.message)) trap = { msg: 'stack overflow', kind: 'wasm' };
      else { this.m = null; this.stable.rollback(); throw e; }
    }
    if (beat) beat[0] = 0;
    this.workSince(mark);
    this.dropCall(m);
    this.m = null;
    if (trap) {
      this.stats.traps++;
      this.stable.rollback(); this.cycles = cycles0; this.certified = cert0; this.timer = timer0;
      this.restoreSnap();
    }
    return trap;
  }
  commit() { this.stable.commit(); this.takeSnap(); this.version++; }

  finishCtx(ctx) { if (!ctx.responded && ctx.pending === 0) { ctx.responded = true; ctx.result = { kind: 'reject', code: 5, msg: 'Canister did not produce a response' }; ctx.refund = ctx.avail; } }

  after(m, ctx) {
    ctx.avail = m.avail; ctx.accepted += m.accepted;
    for (const call of m.out) {
      const id = this.nextCall++;
      this.calls.set(id, Object.assign(call, { id, ctx, at: this.time }));
      ctx.pending++; ctx.callIds.push(id);
    }
    if (m.response) { ctx.responded = true; ctx.result = m.response; ctx.refund = ctx.avail; ctx.avail = 0n; }
  }

  install(arg, kind = 'canister_init') {
    const m = this.newMsg(INIT, { arg, ctx: null });
    if (!this.snap) this.takeSnap();
    if (!this.ex[kind]) return { trap: null, m };
    const trap = this.run(m, () => this.ex[kind]());
    if (!trap) this.commit();
    return { trap, m };
  }
  // Replace the code, keeping stable memory. With a trap the old instance stays.
  upgrade(arg, module = this.module) {
    if (this.calls.size) throw new HostBug('upgrade with open calls: the canister must be stopped first');
    if (this.dirty) { this.restoreSnap(); this.dirty = false; }
    const old = { module: this.module, inst: this.inst, ex: this.ex, mem: this.mem, table: this.table, sp: this.sp, snap: this.snap, snapBuf: this.snapBuf };
    if (this.ex.canister_pre_upgrade) { const m = this.newMsg(INIT, {}); const t = this.run(m, () => this.ex.canister_pre_upgrade()); if (t) return { trap: t }; this.commit(); }
    this.module = module; this.snapBuf = null; this.instantiate();
    const r = this.install(arg, 'canister_post_upgrade');
    if (r.trap) { Object.assign(this, old); this._hb = null; this.restoreSnap(); this.dirty = false; }
    else this.version++;
    return r;
  }

  // what the code does of its own accord as time passes
  tick() {
    const due = this.timer && this.timer <= this.time; if (due) this.timer = 0n;
    for (const f of [this.ex.canister_heartbeat, due && this.ex.canister_global_timer]) if (f) {
      const ctx = { avail: 0n, responded: true, accepted: 0n, pending: 0, callIds: [], refund: 0n }, m = this.newMsg(UPD, { caller: new Uint8Array(0), ctx });
      if (!this.run(m, () => f())) { this.commit(); this.after(m, ctx); }
    }
  }

  // An ingress or inter-canister update call. Returns the call context.
  update(method, arg, { caller = new Uint8Array([4]), cycles = 0n } = {}) {
    const ctx = { id: this.nextCtx++, method, avail: cycles, sent: cycles, accepted: 0n, responded: false, result: null, pending: 0, callIds: [], refund: 0n, caller };
    const f = this.ex['canister_update ' + method] || this.ex['canister_query ' + method];
    if (!f) { ctx.responded = true; ctx.refund = cycles; ctx.result = { kind: 'reject', code: 5, msg: 'method not found' }; return { ctx, trap: null, m: null }; }
    const isQ = !this.ex['canister_update ' + method];
    // users' messages (not canisters') are inspected first, where the code asks for it
    if (this.ex.canister_inspect_message && (hex(caller) === '04' || (caller.length === 29 && caller[28] === 2))) {
      const m = this.newMsg(QRY, { arg, caller, method, ctx: { avail: 0n, responded: true }, replicated: true }), trap = this.run(m, () => this.ex.canister_inspect_message());
      this.stable.rollback(); this.dirty = true;
      if (trap || !m.taken) { ctx.responded = true; ctx.refund = cycles; ctx.result = { kind: 'reject', code: 5, msg: 'not accepted' + (trap ? ': ' + trap.msg : '') }; return { ctx, trap: null, m: null }; }
    }
    const m = this.newMsg(isQ ? QRY : UPD, { arg, caller, method, ctx, replicated: true });
    const trap = this.run(m, () => f());
    if (trap) { ctx.responded = true; ctx.refund = ctx.sent; ctx.avail = 0n; ctx.result = { kind: 'reject', code: 5, msg: trap.msg, trap }; return { ctx, trap, m }; }
    if (isQ) { this.stable.rollback(); this.dirty = true; ctx.responded = true; ctx.refund = cycles; ctx.result = m.response ?? { kind: 'reject', code: 5, msg: 'no response' }; return { ctx, trap, m }; }
    this.commit();
    this.after(m, ctx); this.finishCtx(ctx);
    return { ctx, trap, m };
  }

  query(method, arg, { caller = new Uint8Array([4]), replicated = false } = {}) {
    const f = this.ex['canister_query ' + method];
    if (!f) return { kind: 'reject', code: 5, msg: 'query method not found' };
    const ctx = { avail: 0n, responded: false, accepted: 0n };
    const m = this.newMsg(QRY, { arg, caller, method, ctx, replicated });
    // several queries may run on the same live heap; it is restored before the next update
    if (this.m) throw new HostBug('re-entrant execution');
    if (!this.snap) this.takeSnap();
    const cert0 = this.certified, w0 = this.stable.writes;
    this.stable.begin(); this.m = m; this.stats.execs++;
    const mark = this.workMark();
    let res; const beat = Canister.beat; if (beat) beat[0] = Date.now();
    try { f(); res = m.response ?? { kind: 'reject', code: 5, msg: 'no response' }; } catch (e) {
      if (e instanceof Trap) res = { kind: 'reject', code: 5, msg: e.message, trap: { msg: e.message, kind: e.kind } };
      else if (e instanceof WebAssembly.RuntimeError) res = { kind: 'reject', code: 5, msg: e.message, trap: { msg: e.message, kind: 'wasm' } };
      else { this.m = null; this.stable.rollback(); throw e; }
    }
    if (beat) beat[0] = 0;
    this.workSince(mark);
    this.m = null; this.dirty = true;
    res.stableWrites = this.stable.writes - w0;
    this.stable.rollback(); this.certified = cert0;
    if (res.trap) { this.restoreSnap(); this.dirty = false; }
    return res;
  }

  // Answer an outstanding call. resp: {kind:'reply', data, refund} | {kind:'reject', code, msg, refund}
  deliver(callId, resp) {
    const call = this.calls.get(callId);
    if (!call) throw new HostBug('no such call ' + callId);
    this.calls.delete(callId);
    const ctx = call.ctx;
    const refund = resp.refund ?? 0n;
    if (refund > call.cycles) throw new HostBug('refund above the attached cycles');
    this.cycles += refund;
    ctx.pending--;
    const isReply = resp.kind === 'reply';
    const mk = (kind) => this.newMsg(kind, { arg: isReply ? resp.data : new Uint8Array(0), caller: ctx.caller, ctx, rejectCode: isReply ? 0 : resp.code,
      rejectMsg: isReply ? new Uint8Array(0) : te.encode(resp.msg), refund, method: ctx.method });
    const m = mk(isReply ? REPLY : REJECT);
    const [f, e] = isReply ? [call.rf, call.re] : [call.jf, call.je];
    const trap = this.run(m, () => this.table.get(f)(e));
    if (trap) {
      if (call.cf !== null) {
        const cm = mk(CLEAN); const t2 = this.run(cm, () => this.table.get(call.cf)(call.ce));
        if (!t2) this.commit(); else trap.cleanup = t2;
      }
      if (!ctx.responded && ctx.pending === 0) { ctx.responded = true; ctx.refund = ctx.avail; ctx.result = { kind: 'reject', code: 5, msg: trap.msg, trap }; }
      return { ctx, trap, m, call };
    }
    this.commit();
    this.after(m, ctx); this.finishCtx(ctx);
    return { ctx, trap: null, m, call };
  }
}
