// C32 spelling of the default subaccount, C33 users do not affect each other, C34 no user is special,
// C35 no moment and no place in the log is special:
// properties of pairs of executions. A recorded history is executed again, changed in a way that must not
// matter, and everything observable is compared.
import { Mon, rngOf, magn } from './base.mjs';
import { Canister } from '../engine/replica.mjs';
import { did, cmcDid, mgmtDid } from '../engine/world.mjs';
import { hex, unhex } from '../engine/candid.mjs';
import { parseBlock, SEC, rawAcc, acc, akey, unkey, unpkey, Z32, MGMT, ANON, CMC, LEDGER_ID, KNOWN } from '../engine/ledger.mjs';

const EXPIRED = /expired/i;
const canon = (v) => JSON.stringify(v, (k, x) => typeof x === 'bigint' ? x + 'n' : x);
const INDEX = new Set(['block_index', 'block_id', 'duplicate_of', 'withdraw_from_block', 'create_from_block', 'refund_block', 'approval_refund_block', 'fee_block']);
const TIMES = new Set(['created_at_time', 'expires_at', 'ledger_time']);
// transformations of candid arguments: accounts, subaccounts of the caller, principals
function walk(v, X, key) {
  if (Array.isArray(v)) return v.map((e) => walk(e, X, key));
  if (v && typeof v === 'object') {
    if ('owner' in v && 'subaccount' in v) return X.account(v);
    return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, k.endsWith('_subaccount') && (x === null || typeof x === 'string') ? X.own(x) : TIMES.has(k) && typeof x === 'bigint' ? X.time(x) : walk(x, X, k)]));
  }
  return typeof v === 'string' && (key === 'to' || key === 'controllers' || key === 'allowed_viewers' || key === 'SetTo' || key === 'receiver') ? X.target(v) : v;
}
const SAME = { account: (a) => a, own: (s) => s, target: (p) => p, caller: (p) => p, time: (t) => t };

// what a request asks for, and the same under other names
function request(x) {
  const d = x.method === 'deposit_cycles' ? mgmtDid : x.method === 'create_canister' ? cmcDid : null;
  try { return d ? d.decode(d.service[x.method].args, x.arg) : hex(x.arg); } catch { return hex(x.arg); }
}
const NAMED = new Set(['canister_id', 'controllers', 'allowed_viewers', 'log_visibility']);
function named(v, f, key) {
  if (Array.isArray(v)) return v.map((e) => named(e, f, key));
  if (v && typeof v === 'object') return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, named(x, f, k)]));
  return typeof v === 'string' && NAMED.has(key) ? f(v) : v;
}
// a withdrawal's memo names the receiver
function memoOf(m, f) {
  const x = m && /^81(4.|5[0-7]|58..)/.exec(m); if (!x) return m;
  const p = f(m.slice(x[0].length)), n = p.length / 2; return '81' + (n < 24 ? (64 + n).toString(16) : '58' + n.toString(16)) + p;
}

class Copy {
  constructor(can, X) { this.can = can; this.X = X; this.idx = new Map(); this.ids = new Map(); }
  get length() { const r = this.can.query('icrc3_get_blocks', did.encode(did.service.icrc3_get_blocks.args, [[]]), {}); return r.kind === 'reply' ? Number(did.decode(did.service.icrc3_get_blocks.rets, r.data)[0].log_length) : -1; }
  ask(m, args) { const r = this.can.query(m, did.encode(did.service[m].args, args), {}); return r.kind === 'reply' ? did.decode(did.service[m].rets, r.data)[0] : { reject: r }; }
  // the answer this copy must give, given the one the original gave
  want(result, method) {
    const go = (v, k) => {
      if (typeof v === 'bigint') return TIMES.has(k) ? this.X.time(v) : k === 'Ok' || INDEX.has(k) ? BigInt(this.idx.get(Number(v)) ?? -1n) : v;
      if (Array.isArray(v)) return v.map((e) => go(e, k));
      if (v && typeof v === 'object') return 'owner' in v ? v : Object.fromEntries(Object.entries(v).map(([kk, x]) => [kk, go(x, kk)]));
      return typeof v === 'string' && k === 'receiver' ? this.X.target(v) : v;
    };
    return go(result, '');
  }
  step(s) {
    const can = this.can; let r, method = s.method;
    if (s.kind === 'update') {
      const o = s.op;
      if (o.faults) { can.liquidOverride = o.faults.liquid ?? null; const c = o.faults.perform ?? 0; can.performFault = c ? () => c : null; }
      this.X.call = o;
      r = can.update(o.method, o.raw ?? did.encode(did.service[o.method].args, walk(o.argList, this.X, '')), { caller: unhex(this.X.caller(o.caller)), cycles: o.sent });
      can.liquidOverride = null; can.performFault = null;
    } else { const id = this.ids.get(s.call.id); if (id === undefined) return { diff: 'a request is missing' }; r = can.deliver(id, s.resp); }
    const out = []; if (!r.trap && r.m) for (const c of r.m.out) { const x = can.calls.get(c.id); if (x) out.push(x); }
    let result; const was = this.done ??= new Set(); const first = r.ctx.responded && !was.has(r.ctx); if (first) { was.add(r.ctx); const x = r.ctx.result; result = x.kind === 'reply' ? did.decode(did.service[method].rets, x.data)[0] ?? null : { reject: { code: x.code } }; }
    return { trap: !!r.trap, result, out, refund: first ? r.ctx.refund : 0n };
  }
}
// what differs between step s of the original and the same step in a copy (null: nothing)
function compare(c, s, g, before) {
  if (g.diff) return g.diff;
  if (g.trap !== !!s.trap) return g.trap ? 'it traps' : 'it does not trap';
  const n0 = Number(s.pre.len), n1 = Number(s.post.len), now = c.length;
  if (now - before !== n1 - n0) return `it records ${now - before} blocks instead of ${n1 - n0}`;
  for (let i = n0; i < n1; i++) c.idx.set(i, before + i - n0);
  if ((g.result === undefined) !== (s.result === undefined)) return g.result === undefined ? 'it is not answered' : 'it is answered at once';
  if (s.result !== undefined) {
    const b = s.result && s.result.reject ? { reject: { code: s.result.reject.code } } : c.want(s.result, s.method);
    // an expired approval may be reported as expired or, once cleaned up, as absent; texts may name users
    const strip = (v) => { const e = v && v.Err; return !e ? v : e.InsufficientAllowance && e.InsufficientAllowance.allowance === 0n || (e.GenericError && (e.GenericError.error_code === 100003n || EXPIRED.test(e.GenericError.message))) ? 'no allowance' : e.GenericError ? 'generic' + e.GenericError.error_code : v; };
    if (canon(strip(g.result)) !== canon(strip(b))) return { answer: g.result, expected: b };
    if (g.refund !== s.op.refund) return { 'cycles returned': g.refund, expected: s.op.refund };
  }
  if (g.out.length !== s.calls.length) return `it sends ${g.out.length} requests instead of ${s.calls.length}`;
  for (let i = 0; i < s.calls.length; i++) {
    const x = s.calls[i], y = g.out[i]; c.ids.set(x.id, y.id);
    if (x.method !== y.method || x.cycles !== y.cycles) return { request: y.method, cycles: y.cycles, expected: [x.method, x.cycles] };
    const p = canon(named(request(x), c.X.target)), q = canon(request(y)); if (p !== q) return { request: y.method, argument: q, expected: p };
  }
  return null;
}
const when = (X, t) => t === null ? null : X.time(t);
function state(c, s, g, all) {
  for (const [k, v] of s.post.bal) { if (!all && !g.bool(0.4)) continue; const a = c.X.account(unkey(k)), x = c.ask('icrc1_balance_of', [a]); if (x !== v) return { account: k, as: a, balance: x, expected: v }; }
  for (const [k, v] of s.post.alw) { if (!all && !g.bool(0.4)) continue; const [f, sp] = unpkey(k).map((a) => c.X.account(a)), x = c.ask('icrc2_allowance', [{ account: f, spender: sp }]); if (x.allowance !== v.a || (x.expires_at ?? null) !== when(c.X, v.e)) return { pair: k, as: [f, sp], allowance: x, expected: v }; }
  return null;
}

// the blocks and the listings of a copy at the end
const TIMED = new Set(['cat', 'expires', 'ts']);
function recorded(c, w, exact) {
  if (w.maxBlocks === 0n || w.chain.length > 2500) return null;
  const len = c.length, got = [], lo = Math.min(c.idx.get(0) ?? 0, len); while (lo + got.length < len) { const r = c.ask('icrc3_get_blocks', [[{ start: BigInt(lo + got.length), length: BigInt(len - lo - got.length) }]]); if (r.reject || !r.blocks.length) return { blocks: 'not served' }; got.push(...r.blocks); }
  const who = (a) => a && (exact ? rawAcc(a) : akey(a)), X = c.X;
  for (const b of w.chain) {
    const g = got[c.idx.get(b.i) - lo], y = g && parseBlock(g.block); if (!y || y.err.length) return { block: b.i, got: y && y.err };
    for (const k of ['op', 'amt', 'fee', 'txfee', 'cat', 'expected', 'expires', 'ts']) { const e = TIMED.has(k) && typeof b[k] === 'bigint' ? X.time(b[k]) : b[k]; if (y[k] !== e) return { block: b.i, field: k, got: y[k], expected: e }; }
    const m = b.op === 'burn' ? memoOf(b.memo, X.target) : b.memo; if (m !== y.memo) return { block: b.i, memo: y.memo, expected: m };
    X.call = null; for (const k of ['from', 'to', 'spender']) { const e = b[k] && who(X.account(b[k])); if (e !== (y[k] && who(y[k]))) return { block: b.i, field: k, got: y[k], expected: e }; }
  }
  return null;
}
function listings(c, w, s, g, part) {
  const owners = [...new Set([...s.post.alw].filter((e) => e[1].a > 0n).map((e) => unpkey(e[0])[0].owner))]; X: for (let i = 0; i < 4 && owners.length; i++) {
    const o = owners.splice(g.int(owners.length), 1)[0], q = (owner, ask) => ask('icrc103_get_allowances', [{ from_account: { owner, subaccount: null }, prev_spender: null, take: null }]).Ok;
    const l = q(o, (m, a) => w.query(m, a)), r = q(c.X.account(acc(o)).owner, (m, a) => c.ask(m, a)); if (!l || !r) return { listing: o, got: r };
    if (l.length >= 500 || r.length >= 500) continue X;
    const line = (X) => (e) => [akey(X.account(e.from_account)), akey(X.account(e.to_spender)), e.allowance, when(X, e.expires_at)].join(' '), a = l.map(line(c.X)).sort(), b = new Set(r.map(line(SAME)));
    if ((!part && b.size !== a.length) || a.some((x) => !b.has(x))) return { listing: o, got: [...b].sort(), expected: a };
  }
  return null;
}

class Twin extends Mon {
  constructor(p) { super(p); this.rec = new WeakMap(); }
  onSegment(w, s) { let l = this.rec.get(w); if (!l) this.rec.set(w, l = []); l.push(s); this.direct?.(w, s); }
  onEnd(w) {
    const segs = this.rec.get(w), g = rngOf(this, w); if (!segs || segs[0].kind !== 'install' || (w.monitors.length > 5 && !g.bool(0.2))) return;
    if (segs.some((s) => s.kind === 'update' && s.op.raw && !(s.trap || (s.result && s.result.reject)))) return;   // an unusual spelling of a good message
    let sent = w.start.cycles; for (const s of segs) if (s.op && s.kind === 'update') sent += s.op.sent; if (sent > 1n << 126n && this.prop === 'C33') return this.tally('too many cycles for two');
    const plan = this.plan(w, segs, g); if (!plan) return this.tally('nothing to change');
    const { transforms, init, mode } = plan, dt = plan.dt ?? 0n;
    const can = new Canister(w.module, w.can.id ?? unhex(LEDGER_ID), { cycles: w.start.cycles * BigInt(transforms.length), time: w.start.time + dt });
    const copies = transforms.map((X) => new Copy(can, X));
    const bad = (s, c, diff) => this.bad(w, this.what, { how: mode, step: segs.indexOf(s), kind: s.kind, method: s.method, args: s.op && s.op.args, caller: s.op && s.op.caller, copy: copies.indexOf(c), diff });
    const r0 = can.install(did.encode(did.init, [{ Init: init.args }])); if (r0.trap) return this.bad(w, this.what, { how: mode, diff: 'the installation traps: ' + r0.trap.msg });
    copies.forEach((c, k) => { for (let i = 0; i < Number(segs[0].post.len); i++) c.idx.set(i, init.index(i, k)); });
    let n = 0;
    for (const s of segs.slice(1)) {
      can.time = s.t + dt; if (s.kind === 'time') can.tick();
      if (s.kind === 'time') { if (g.bool(0.15)) for (const c of copies) { const d = state(c, s, g); if (d) return bad(s, c, d); } continue; }
      if (s.kind === 'upgrade') {
        const r = can.upgrade(s.rawArg ?? (s.arg === undefined ? did.encode([], []) : did.encode(did.init, [s.arg])), s.module ?? can.module);
        if (!!r.trap !== !!s.trap) return bad(s, copies[0], 'the upgrade ' + (r.trap ? 'traps: ' + r.trap.msg : 'does not trap')); continue;
      }
      if (s.kind === 'bulk') {
        for (const [k, c] of copies.entries()) {
          const before = c.length; if (k === 0) this.bulkFrom = before;
          s.list.forEach((x) => { c.X.call = x; can.update(x.method, did.encode(did.service[x.method].args, walk(x.args, c.X, '')), { caller: unhex(c.X.caller(x.caller)), cycles: x.cycles ?? 0n }); });
          const now = c.length; if (now - before !== Number(s.post.len - s.pre.len)) return bad(s, c, `${now - before} blocks instead of ${s.post.len - s.pre.len}`);
          for (let i = Number(s.pre.len); i < Number(s.post.len); i++) c.idx.set(i, before + i - Number(s.pre.len));
        }
        continue;
      }
      if (s.kind !== 'update' && s.kind !== 'callback') continue;
      if (s.op.raw && transforms.length > 1) continue;   // rejected, so of no effect: checked by others
      const order = copies.length > 1 && g.bool() ? [...copies].reverse() : copies;
      for (const c of order) {
        const before = c.length, d = compare(c, s, c.step(s), before);
        if (d) return bad(s, c, d);
      }
      n++;
      const o = s.result === undefined ? 'pending' : s.result === null ? 'Ok' : s.result.reject ? 'reject' : s.result.Err ? Object.keys(s.result.Err)[0] : 'Ok';
      this.ev([mode, s.kind, s.method, s.trap ? 'trap' : o, s.resp ? s.resp.label : '', s.blocks.length, plan.key(s)].join(':'), () => ({ how: mode, method: s.method, args: s.op.args, outcome: o }));
      if (g.bool(0.12)) for (const c of copies) { const x = state(c, s, g); if (x) return bad(s, c, x); }
    }
    const last = segs.at(-1); for (const c of copies) { const x = state(c, last, g, last.post.bal.size < 60); if (x) return bad(last, c, x); }
    for (const c of copies) { const x = recorded(c, w, plan.exact) ?? listings(c, w, last, g, plan.part); if (x) return bad(last, c, x); }
    this.tally('pairs of executions'); this.tally('steps compared', n);
  }
}

export class Spelling extends Twin {
  constructor() { super('C32'); this.what = 'the spelling of the default subaccount makes a difference'; }
  plan(w, segs, g) {
    const all = g.bool();   // calls with a creation time are rewritten all or not at all, so that repeats stay repeats
    const flip = (s) => s === null ? Z32 : s === Z32 ? null : s, timed = (o) => o && o.args && (Array.isArray(o.args) ? o.args[0] : o.args)?.created_at_time != null, X = { ...SAME, call: null };
    const f = (s) => (timed(X.call) ? all : g.bool()) ? flip(s) : s;
    X.account = (a) => ({ owner: a.owner, subaccount: f(a.subaccount) }); X.own = f;
    const args = w.initArgs, init = { args: { ...args, initial_balances: args.initial_balances && args.initial_balances.map((e) => ({ 0: X.account(e[0]), 1: e[1] })) }, index: (i) => i };
    const sp = (a) => !a ? '' : a.subaccount === null ? 'n' : a.subaccount === Z32 ? 'z' : 's';
    return { transforms: [X], init, mode: 'respelled', key: (s) => s.op.n ? sp(s.op.n.from) + sp(s.op.n.to) + sp(s.op.n.spender) : '' };
  }
  // the same question in both spellings
  direct(w, s) {
    const g = rngOf(this, w); if (!g.bool(0.15)) return;
    const ks = [...s.post.bal.keys()].filter((k) => k.endsWith('/')); if (!ks.length) return;
    const both = (k) => [acc(unkey(k).owner), acc(unkey(k).owner, Z32)], one = (list) => new Set(list.map(canon)).size === 1;
    const k = g.pick(ks), [a, b] = both(k);
    if (!one([w.balance(a), w.balance(b)])) return this.bad(w, 'a balance depends on the spelling of the default subaccount', { account: k });
    const p = [...s.post.alw.keys()].filter((q) => q.includes('/>') || q.endsWith('/'));
    if (p.length) { const q = g.pick(p), [f, t] = unpkey(q), v = (x) => x.subaccount === null ? [x, acc(x.owner, Z32)] : [x], r = []; for (const x of v(f)) for (const y of v(t)) r.push(w.allowance(x, y)); this.ev('allowance:' + r.length + ':' + (r[0].a > 0n)); if (!one(r)) return this.bad(w, 'an allowance depends on the spelling of the default subaccount', { pair: q, answers: r }); }
    const list = (f, prev) => w.query('icrc103_get_allowances', [{ from_account: f, prev_spender: prev, take: 20n }], { caller: a.owner });
    const prev = g.bool() ? both(g.pick(ks)) : [null, null], r = [list(a, prev[0]), list(b, prev[0]), list(a, prev[1]), list(b, prev[1]), list(null, prev[0])];
    if (!one(r)) return this.bad(w, 'a listing depends on the spelling of the default subaccount', { account: k, prev: prev[0], answers: r });
    this.ev('listing:' + Math.min(3, r[0].Ok ? r[0].Ok.length : -1) + ':' + (prev[0] !== null), () => ({ account: k, listed: r[0].Ok && r[0].Ok.length }));
  }
}

const FIXED = new Set([MGMT, CMC, LEDGER_ID]);
const selfAuth = (p) => p.length === 58 && p.endsWith('02');
function users(w, segs, fixed = FIXED) {
  const U = new Set(), see = (v) => { if (Array.isArray(v)) v.forEach(see); else if (v && typeof v === 'object') { if ('owner' in v && 'subaccount' in v) U.add(v.owner); else Object.values(v).forEach(see); } };
  see(w.initArgs.initial_balances); for (const s of segs) { if (s.kind === 'update') { U.add(s.op.caller); see(s.op.argList); } if (s.kind === 'bulk') for (const x of s.list) { U.add(x.caller); see(x.args); } for (const k of s.post.bal.keys()) U.add(unkey(k).owner); }
  for (const f of fixed) U.delete(f); return U;
}
// new names of the same kind; of the same length if asked for; some of them well-known ones if asked for
function renaming(U, g, sameLength, known = 0) {
  const M = new Map(), taken = new Set([...U, ...(known ? [MGMT] : FIXED), ANON]);
  for (const p of U) if (g.bool(known) && !selfAuth(p) && (!sameLength || p.length === 20)) { const q = g.pick(KNOWN); if (!taken.has(q)) { taken.add(q); M.set(p, q); } }
  for (const p of U) if (!M.has(p)) {
    let q;
    do { const n = sameLength ? p.length / 2 : 5 + g.int(24); q = selfAuth(p) ? g.bytes(28) + '02' : n < 3 ? p : g.bytes(n - 1) + (p === ANON ? '01' : p.slice(-2)); if (!selfAuth(p) && selfAuth(q)) q = q.slice(0, -2) + '01'; if (n < 3) break; } while (taken.has(q));
    taken.add(q); M.set(p, q);
  }
  return M;
}
const rename = (M) => { const p = (x) => M.get(x) ?? x; return { ...SAME, account: (a) => ({ owner: p(a.owner), subaccount: a.subaccount }), caller: p, target: p }; };

export class Strangers extends Twin {
  constructor() { super('C33'); this.what = 'what one user sees depends on what others do'; }
  plan(w, segs, g) {
    const text = canon([w.initArgs, segs.map((s) => s.op && s.op.argList)]), U = users(w, segs);
    const sub = !text.includes(`"${Z32}"`) && g.bool(0.35);
    const xor = (s) => { const b = s === null ? Buffer.alloc(32) : Buffer.from(s, 'hex'); return Buffer.from(b.map((x) => x ^ 0xe1)).toString('hex'); };
    const X = sub ? { ...SAME, account: (a) => ({ owner: a.owner, subaccount: xor(a.subaccount) }), own: xor } : rename(renaming(U, g, false));
    if (!sub && [...segs[0].post.bal.keys(), ...segs.flatMap((s) => s.op && s.op.n && s.op.n.kind === 'deposit' ? [akey(s.op.n.to)] : [])].some((k) => FIXED.has(unkey(k).owner))) return null;   // accounts both copies would share
    const two = [{ ...SAME }, X], args = w.initArgs, ib = args.initial_balances;
    const init = { args: { ...args, initial_balances: ib && ib.flatMap((e) => two.map((t) => ({ 0: t.account(e[0]), 1: e[1] }))) }, index: (i, k) => 2 * i + k };
    return { transforms: two, init, exact: true, part: sub, mode: sub ? 'beside a copy under other subaccounts' : 'beside a copy by other users', key: (s) => w.inflight.size + (s.op.n ? magn(s.op.n.amount) + (s.op.n.cat !== null) : '') };
  }
}
export class Symmetry extends Twin {
  constructor() { super('C34'); this.what = 'the outcome depends on who the users are'; }
  plan(w, segs, g) {
    const same = g.bool(), U = users(w, segs, new Set([MGMT])), X = rename(renaming(U, g, same, g.pick([0.01, 0.25, 0.6])));
    const args = w.initArgs, init = { args: { ...args, initial_balances: args.initial_balances && args.initial_balances.map((e) => ({ 0: X.account(e[0]), 1: e[1] })) }, index: (i) => i };
    return { transforms: [X], init, exact: true, mode: same ? 'renamed' : 'renamed to other lengths', key: (s) => (s.op.n && s.op.n.from ? s.op.n.from.owner.length : '') + ':' + s.op.caller.length + (s.op.n && s.op.n.spender ? s.op.n.spender.owner.length : '') };
  }
}

// the same history at another time, or behind blocks of somebody else
const YEAR = 365n * 86_400n * SEC, MAXT = (1n << 64n) - 1n;
export class Moved extends Twin {
  constructor() { super('C35'); this.what = 'the outcome depends on the date or on the place in the log'; }
  plan(w, segs, g) {
    // the times of the history: those near it move with it, those beyond any reach stay
    let lo = w.start.time, hi = w.start.time; for (const s of segs) if (s.t > hi) hi = s.t;
    const NEAR = g.pick([2n, 20n, 200n]) * YEAR, near = (t) => t >= lo - NEAR && t <= hi + NEAR, seen = [lo, hi], see = (v) => { if (Array.isArray(v)) v.forEach(see); else if (v && typeof v === 'object') for (const [k, x] of Object.entries(v)) if (TIMES.has(k) && typeof x === 'bigint') { if (near(x)) seen.push(x); } else see(x); };
    for (const s of segs) { if (s.kind === 'update') see(s.op.argList); if (s.kind === 'bulk') for (const x of s.list) see(x.args); }
    const a = seen.reduce((x, y) => x < y ? x : y), b = seen.reduce((x, y) => x > y ? x : y), half = NEAR / 2n, down = a < half ? a : half, up = MAXT - b - 1n < half ? MAXT - b - 1n : half;
    let dt = 0n; const way = g.int(6);
    if (way < 5) {
      const k = g.pick([1n, 1_000n, SEC, 60n * SEC, 3600n * SEC, 86_400n * SEC, 31n * 86_400n * SEC, 3650n * 86_400n * SEC, g.big(g.range(1, 58)) + 1n]) * BigInt(1 + g.int(3));
      if (way === 0 || way === 3) { // so that some instant of the history becomes a round one
        const x = g.pick([...seen, ...segs.map((s) => s.t)]), unit = g.pick([SEC, SEC, 60n * SEC, 3600n * SEC, 86_400n * SEC, 1n << 32n, 1n << 40n, 1n << 60n, 1n << 32n]), to = g.pick([g.pick([0x7fffffffn, 0xffffffffn]) * SEC, (x / unit + BigInt(g.int(2))) * unit, (x / unit + BigInt(g.int(2))) * unit]) + BigInt(g.pick([-1, 0, 0, 0, 1]));
        dt = to - x; if (dt > up || dt < -down) dt = (x / SEC) * SEC - x; if (dt < -down) dt = 0n;
      } else      dt = g.bool() ? (k > up ? up : k) : -(k > down ? down : k); if (g.int(8) === 0) dt = g.bool() ? up : -down;
    }
    let n = way >= 3 ? g.pick([1, 2, 10, 90, 127, 128, 256 - Math.min(256, Number(segs.at(-1).post.len) >> 1), 300, 1000]) : 0; if (this.long !== w.flavor && n && g.int(60) === 0) { n = 65536 - (Number(segs.at(-1).post.len) >> 1); }
    let total = 0n; for (const e of w.initArgs.initial_balances ?? []) total += e[1]; if (total > 1n << 100n) n = 0;
    if (!dt && !n) return null;
    const X = { ...SAME, time: (t) => near(t) ? t + dt : t }, args = w.initArgs, other = acc(renaming(new Set([...users(w, segs), 'ff'.repeat(10) + '01']), g, true).get('ff'.repeat(10) + '01'));
    const init = { args: { ...args, initial_balances: n || args.initial_balances ? [...Array.from({ length: n }, () => ({ 0: other, 1: 1n })), ...args.initial_balances ?? []] : null }, index: (i) => n + i };
    const mag = dt === 0n ? 'then' : (dt > 0n ? 'later' : 'earlier') + String(dt > 0n ? dt : -dt).length;
    return { transforms: [X], init, dt, exact: true, mode: [mag, n ? 'behind ' + n : ''].join(' ').trim(), key: (s) => s.op.n ? (s.op.n.cat !== null ? 't' : '') + (s.op.n.expires != null ? 'e' : '') : '' };
  }
}
