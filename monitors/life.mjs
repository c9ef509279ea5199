// C24 upgrades, C25 bounded tables, C27 interface, C28 totality, C29 installation
import { Mon, eqMap, eqAlw, magn, rngOf } from './base.mjs';
import { FEE, U64, U128, WINDOW, DRIFT, akey, acc, rawAcc, txKeyRaw, feeOf, Z32, Fold } from '../engine/ledger.mjs';
import { outcome, accepted, reasons } from '../engine/expect.mjs';
import { did } from '../engine/world.mjs';

export function configProblem(w) {
  const m = w.query('icrc1_metadata', []); if (!Array.isArray(m)) return { what: 'metadata query failed', m };
  const get = (k) => { const e = m.find((x) => x['0'] === k); return e && e['1']; };
  if (!get('dfn:max_blocks_per_request') || get('dfn:max_blocks_per_request').Nat !== w.maxBlocks) return { what: 'max_blocks_per_request', want: w.maxBlocks, got: get('dfn:max_blocks_per_request') };
  const id = w.query('icrc106_get_index_principal', []);
  if (w.indexId === null ? !(id.Err && 'IndexPrincipalNotSet' in id.Err) : id.Ok !== w.indexId) return { what: 'index principal', want: w.indexId, got: id };
  const blob = get('dfn:index_id'); if (w.indexId === null ? blob !== undefined : !blob || blob.Blob !== w.indexId) return { what: 'dfn:index_id', want: w.indexId, got: blob };
  const txt = get('icrc106:index_principal'); if ((w.indexId === null) !== (txt === undefined)) return { what: 'icrc106:index_principal', want: w.indexId, got: txt };
  return null;
}

export class Upgrades extends Mon {
  constructor() { super('C24'); this.st = new WeakMap(); }
  onSegment(w, s) {
    if (!this.st.has(w)) this.st.set(w, { upgraded: false, first: false, keys: new Map() });
    const st = this.st.get(w);
    if (s.kind === 'upgrade') {
      const { pre, post } = s; const bad = s.bad; const ctx = { arg: s.arg, raw: s.rawArg && 'raw', trap: s.trap };
      if (s.trap && !s.expectTrap) return this.bad(w, 'a valid upgrade trapped', ctx);
      if (!s.trap && s.expectTrap) return this.bad(w, 'an upgrade with an invalid argument was accepted', ctx);
      const k = eqMap(pre.bal, post.bal); if (k) this.bad(w, 'an upgrade changed a balance', { ...ctx, account: k, before: pre.bal.get(k), after: post.bal.get(k) });
      for (const [p, v] of pre.alw) if (!eqAlw(v, post.alw.get(p))) this.bad(w, 'an upgrade changed an allowance', { ...ctx, pair: p, before: v, after: post.alw.get(p) });
      if (pre.supply !== post.supply) this.bad(w, 'an upgrade changed the supply', { ...ctx, before: pre.supply, after: post.supply });
      if (pre.len !== post.len) this.bad(w, 'an upgrade changed the block log', { ...ctx, before: pre.len, after: post.len });
      if (pre.cycles !== post.cycles) this.bad(w, 'an upgrade changed the cycles balance', ctx);
      if (pre.certified !== post.certified) this.bad(w, 'an upgrade changed the certified data', ctx);
      if (pre.metrics && post.metrics) for (const f of Object.keys(pre.metrics)) if (f.startsWith('number_of') && pre.metrics[f] !== post.metrics[f]) this.bad(w, 'an upgrade changed the stored tables', { ...ctx, table: f, before: pre.metrics[f], after: post.metrics[f] });
      const c = configProblem(w); if (c) this.bad(w, 'the configuration after an upgrade is not the old one with the requested changes', { ...ctx, ...c });
      // the whole log is still there
      if (w.maxBlocks > 0n) { const bs = w.fetchBlocks(0, BigInt(w.chain.length)); if (bs.length !== w.chain.length) this.bad(w, 'blocks were lost in an upgrade', { ...ctx, had: w.chain.length, has: bs.length }); }
      st.upgraded = st.upgraded || !s.trap; st.first = true;
      this.ev(['up', s.arg === undefined ? 'none' : JSON.stringify(s.arg, (k2, x) => typeof x === 'bigint' ? magn(x) : x), !!s.trap, Math.min(w.fold.alw.size, 4), Math.min(w.fold.bal.size, 8), Math.min(pre.metrics ? pre.metrics.number_of_transaction_hashes : 0, 5), Math.min(w.chain.length, 9)].join(':'), () => ({ arg: s.arg, blocks: w.chain.length, balances: w.fold.bal.size, allowances: w.fold.alw.size }));
      return;
    }
    for (const b of s.blocks) {
      if (b.err.length) continue;
      if (st.first) { const prev = w.chain[b.i - 1]; if (prev && b.phash !== prev.hash) this.bad(w, 'the first block after an upgrade does not continue the chain', { id: b.id, phash: b.phash, want: prev.hash }); st.first = false; this.ev('continue:' + b.op); }
      if (b.cat !== null) { const key = txKeyRaw(b); if (st.upgraded && st.keys.has(key)) this.bad(w, 'a transaction from before an upgrade was executed again after it', { first: st.keys.get(key), second: b.id }); st.keys.set(key, b.id); }
    }
    if (st.upgraded && s.blocks.length) {
      if (s.post.supply !== w.fold.supply) this.bad(w, 'after an upgrade the supply no longer follows the log', { supply: s.post.supply, log: w.fold.supply });
      for (const [k, v] of s.post.bal) if ((w.fold.bal.get(k) ?? 0n) !== v) return this.bad(w, 'after an upgrade a balance no longer follows the log', { account: k, reported: v, log: w.fold.bal.get(k) });
      for (const [k, v] of s.post.alw) { const f = w.fold.allowance(k, s.t); if (f.a !== v.a) return this.bad(w, 'after an upgrade an allowance no longer follows the log', { pair: k, reported: v, log: f }); }
      this.ev('after:' + s.kind + ':' + (s.method ?? ''));
    }
  }
}

export class Tables extends Mon {
  constructor() { super('C25'); this.st = new WeakMap(); }
  // the ledger's own consistency checks write to its log (which an upgrade empties)
  complaint(w) {
    const e = w.logs().find((x) => /expiration_queue len|Unable to find the approval|Cannot find block with id|Cannot calculate hash|transaction hashes pool/.test(x.message));
    if (e) this.bad(w, 'the ledger logs that its own tables are inconsistent', { entry: e.message });
    this.tally('logs read');
  }
  onEnd(w) { this.complaint(w); }
  onSegment(w, s) {
    if (s.i % 40 === 39) this.complaint(w);
    const m = s.post.metrics; if (!m || m.reject) { if (m) this.bad(w, 'the metrics endpoint failed', m.reject); return; }
    if (['number_of_blocks', 'number_of_balances', 'number_of_approvals', 'number_of_approval_expiration_entries', 'number_of_transaction_hashes', 'number_of_transaction_timestamps'].some((k) => m[k] === undefined)) return this.tally('metrics missing'); // C27 reports it
    if (!this.st.has(w)) this.st.set(w, { entries: new Set(), n: 0, cats: [], fold: new Fold() });
    const st = this.st.get(w), t = s.t, inWin = (c) => c + WINDOW + DRIFT >= t;
    // what was stored and still needed just before this step
    let preLive = 0, preCats = 0;
    for (const v of st.fold.alw.values()) if (!(v.e !== null && v.e <= t)) preLive++;
    for (const c of st.cats) if (inWin(c)) preCats++;
    // which balance entries may exist
    const credit = (a) => st.entries.add(akey(a)); const debit = (a) => { const k = akey(a); if ((w.fold.bal.get(k) ?? 0n) === 0n) st.entries.delete(k); };
    for (; st.n < w.chain.length; st.n++) { const b = w.chain[st.n]; if (b.err.length) continue; st.fold.apply(b); if (b.op !== 'mint') debit(b.from); if (b.to) credit(b.to); if (b.cat !== null) st.cats.push(b.cat); }
    let live = 0, timed = 0, expired = 0;
    for (const v of w.fold.alw.values()) { if (v.e !== null && v.e <= t) expired++; else { live++; if (v.e !== null) timed++; } }
    let cats = 0; for (const c of st.cats) if (inWin(c)) cats++;
    const ctx = { metrics: m, after: s.kind + ' ' + (s.method ?? ''), now: t, liveAllowances: live, withExpiry: timed, recentTransactions: cats };
    if (BigInt(m.number_of_blocks) !== s.post.len) this.bad(w, 'the block count metric is wrong', ctx);
    if (m.number_of_balances < w.fold.bal.size) this.bad(w, 'fewer balance entries than accounts with funds', { ...ctx, funded: w.fold.bal.size });
    if (m.number_of_balances > st.entries.size) this.bad(w, 'emptied accounts leave balance entries behind', { ...ctx, funded: w.fold.bal.size, possible: st.entries.size });
    if (m.number_of_transaction_hashes < cats || m.number_of_transaction_timestamps < cats) this.bad(w, 'transactions inside the window were dropped from the deduplication tables', ctx);
    if (m.number_of_approvals < live) this.bad(w, 'live approvals were dropped', ctx);
    if (m.number_of_approval_expiration_entries < timed) this.bad(w, 'approvals that expire are missing from the expiration queue', ctx);
    if (m.number_of_approval_expiration_entries > m.number_of_approvals) this.bad(w, 'more expiration entries than approvals', ctx);
    if (m.number_of_approvals > live + expired) this.bad(w, 'more approvals stored than were granted', ctx);
    if (m.number_of_transaction_hashes > st.cats.length) this.bad(w, 'more transactions remembered than executed', ctx);
    if (s.kind === 'update' && s.op.n && accepted(outcome(s)) && s.pre.metrics) {
      // cleanup by an accepted operation
      const pm = s.pre.metrics; const stale = pm.number_of_transaction_hashes - preCats;
      const n = s.op.n; const touch = n.spender ? 1 : 0;
      const backlog = Math.max(0, m.number_of_approvals - live);
      const before = Math.max(0, pm.number_of_approvals - preLive);
      if (before <= 100 ? backlog > 0 : backlog > before - 100 + touch) this.bad(w, 'an accepted operation did not remove expired approvals', { ...ctx, expiredBefore: before, expiredAfter: backlog });
      if (before <= 100 && m.number_of_approval_expiration_entries !== timed) this.bad(w, 'the expiration queue does not match the approvals', ctx);
      if (stale <= 100_000) { if (m.number_of_transaction_hashes !== cats || m.number_of_transaction_timestamps !== cats) this.bad(w, 'an accepted operation did not bring the deduplication tables down to the window', { ...ctx, staleBefore: stale }); }
      else if (m.number_of_transaction_hashes > pm.number_of_transaction_hashes - 100_000 + 1) this.bad(w, 'an accepted operation pruned less than its share of old transactions', ctx);
      this.ev(before || stale ? ['prune', s.method, before === 0 ? '0' : before < 100 ? '<100' : before === 100 ? '100' : '>100', stale === 0 ? '0' : Math.min(stale, 9), Math.min(cats, 5), Math.min(timed, 5), Math.min(live, 5)].join(':') : ['keep', s.method, Math.min(cats, 9), Math.min(timed, 9), Math.min(live, 9)].join(':'), () => ctx);
    } else this.ev(null);
  }
}

const PATHS = { '/metrics': 200, '/logs': 200, '/metrics?since=5': 200, '/logs?x=/metrics': 200, '/logs?time=notanumber': 200, '/nothing?x=1': 404, '/': 404, '': 404, '/metricsx': 404, '/x?/metrics': 404, '/logs/': 404 };
const QUERIES = (w, g) => {
  const a = { owner: '0101', subaccount: null };
  return [['icrc1_name', []], ['icrc1_symbol', []], ['icrc1_decimals', []], ['icrc1_fee', []], ['icrc1_minting_account', []], ['icrc1_supported_standards', []], ['icrc10_supported_standards', []], ['icrc3_supported_block_types', []],
    ['icrc1_total_supply', []], ['icrc1_metadata', []], ['icrc1_balance_of', [a]], ['icrc2_allowance', [{ account: a, spender: { owner: '02', subaccount: Z32 } }]], ['icrc3_get_blocks', [[]]], ['icrc3_get_archives', [{ from: null }]], ['icrc3_get_archives', [{ from: '04' }]],
    ['icrc3_get_tip_certificate', []], ['icrc103_get_allowances', [{ from_account: null, prev_spender: null, take: null }]], ['icrc106_get_index_principal', []], ...Object.keys(PATHS).map((url) => ['http_request', [{ url, method: 'GET', body: '', headers: [] }]])];
};
export class Interface extends Mon {
  constructor() { super('C27'); this.fixed = new WeakMap(); }
  onSegment(w, s) {
    if (s.op && s.kind !== 'upgrade') {
      const r = s.result;
      if (r && r.undecodable) this.bad(w, 'an answer does not decode at the published interface', { method: s.method, error: r.undecodable, data: r.data });
      if (s.op.n && r !== undefined && r !== null && !r.undecodable) this.ev('answer:' + s.method + ':' + (r.reject ? 'reject' : r.Err ? Object.keys(r.Err)[0] : 'Ok'), () => ({ method: s.method, answer: r }));
      if (!s.op.n && s.kind === 'update') {
        // undecodable arguments and unknown methods are rejected; decodable variants are ordinary calls
        if (s.op.malformed && !(r && r.reject)) this.bad(w, 'malformed arguments were accepted', { method: s.method, raw: Buffer.from(s.op.raw).toString('hex').slice(0, 200), result: r, what: s.op.malformed });
        this.ev('malformed:' + s.method + ':' + s.op.malformed, () => ({ method: s.method, what: s.op.malformed, result: r }));
      }
    }
    if (s.kind === 'install' || s.kind === 'upgrade' || (s.i % 40 === 7)) this.sweep(w, s);
  }
  sweep(w, s) {
    const names = Object.keys(w.can.ex).filter((k) => /^canister_(update|query|composite_query) /.test(k));
    const want = new Set(Object.entries(did.service).map(([m, f]) => 'canister_' + ((f.modes ?? []).includes('query') ? 'query ' : 'update ') + m));
    for (const n of want) if (!names.includes(n)) this.bad(w, 'a published method is missing or has another mode', n);
    for (const n of names) if (!want.has(n)) this.bad(w, 'an unpublished method is exported', n);
    for (const [m, args] of QUERIES(w)) {
      let r; try { r = w.query(m, args); } catch (e) { this.bad(w, 'a query answer does not decode at the published interface', { method: m, error: String(e.message) }); continue; }
      if (r && r.reject) { this.bad(w, 'a query failed', { method: m, reject: r.reject }); continue; }
      this.ev('query:' + m);
      const v = JSON.stringify(r, (k, x) => typeof x === 'bigint' ? String(x) : x);
      if (['icrc1_name', 'icrc1_symbol', 'icrc1_decimals', 'icrc1_fee', 'icrc1_minting_account', 'icrc1_supported_standards', 'icrc10_supported_standards', 'icrc3_supported_block_types'].includes(m)) {
        const f = this.fixed.get(w) ?? {}; this.fixed.set(w, f); f[m] ??= v; if (f[m] !== v) this.bad(w, 'a constant of the interface changed during the life of the ledger', { method: m, before: f[m], after: v });
      }
      if (m === 'icrc1_name' && r !== 'Trillion Cycles') this.bad(w, 'wrong name', r);
      if (m === 'icrc1_symbol' && r !== 'TCYCLES') this.bad(w, 'wrong symbol', r);
      if (m === 'icrc1_decimals' && Number(r) !== 12) this.bad(w, 'wrong decimals', r);
      if (m === 'icrc1_fee' && r !== FEE) this.bad(w, 'wrong fee', r);
      if (m === 'icrc1_minting_account' && r !== null) this.bad(w, 'a minting account is named', r);
      if (m === 'icrc3_get_archives' && r.length) this.bad(w, 'archives announced', r);
      if (m.endsWith('supported_standards')) for (const x of ['ICRC-1', 'ICRC-2', 'ICRC-3', 'ICRC-10', 'ICRC-103', 'ICRC-106']) if (!r.some((y) => y.name === x)) this.bad(w, 'a supported standard is not announced', { method: m, missing: x });
      if (m === 'icrc3_supported_block_types') for (const x of ['1burn', '1mint', '2xfer', '2approve']) if (!r.some((y) => y.block_type === x)) this.bad(w, 'a block type is not announced', { missing: x });
      if (m === 'icrc1_metadata') {
        const get = (k) => { const e = r.filter((x) => x['0'] === k); return e.length === 1 ? e[0]['1'] : undefined; };
        for (const [k, x] of [['icrc1:name', { Text: 'Trillion Cycles' }], ['icrc1:symbol', { Text: 'TCYCLES' }], ['icrc1:decimals', { Nat: 12n }], ['icrc1:fee', { Nat: FEE }], ['icrc1:max_memo_length', { Nat: 32n }], ['dfn:max_blocks_per_request', { Nat: w.maxBlocks }]]) { const y = get(k); if (!y || Object.keys(y)[0] !== Object.keys(x)[0] || Object.values(y)[0] !== Object.values(x)[0]) this.bad(w, 'metadata disagrees with the ledger', { key: k, want: x, got: y }); }
        if (!get('icrc1:logo')) this.bad(w, 'no logo in the metadata', {});
      }
      if (m === 'icrc106_get_index_principal' && (w.indexId === null ? !(r.Err && 'IndexPrincipalNotSet' in r.Err) : r.Ok !== w.indexId)) this.bad(w, 'the index principal is not the configured one', { want: w.indexId, got: r });
      if (m === 'http_request' && args[0].url === '/metrics') {
        const x = w.metrics(), pages = Number(w.can.stable.size), eqn = (k, v) => { if (x[k] !== v) this.bad(w, 'a metric does not state the value in force', { metric: k, reported: x[k], want: v }); };
        eqn('total_supply', Number(s.post.supply)); eqn('cycle_balance', Number(s.post.cycles)); eqn('cycle_balance{canister="cycles-ledger"}', Number(s.post.cycles)); eqn('number_of_blocks', Number(s.post.len));
        eqn('stable_memory_pages', pages); eqn('stable_memory_bytes', pages * 65536);
        for (const k of ['number_of_balances', 'number_of_approvals', 'number_of_approval_expiration_entries', 'number_of_transaction_hashes', 'number_of_transaction_timestamps']) if (!(x[k] >= 0)) this.bad(w, 'a metric is missing', { metric: k });
        for (const line of Buffer.from(r.body, 'hex').toString().split('\n')) { const p = line.split(' '); if (line && line[0] !== '#' && p[2] !== undefined && w.now < 1n << 62n && p[2] !== String(w.now / 1_000_000n)) this.bad(w, 'a metric is dated at another time', { line, now: w.now }); }
      }
      if (m === 'http_request' && args[0].url === '/logs') {
        let e; try { e = JSON.parse(Buffer.from(r.body, 'hex').toString()).entries; } catch { e = null; }
        if (!Array.isArray(e) || e.some((x) => typeof x.message !== 'string' || (x.priority !== 'P0' && x.priority !== 'P1') || !(Number(x.timestamp) >= 0) || typeof x.file !== 'string')) this.bad(w, 'the log endpoint does not serve its entries as JSON', { body: Buffer.from(r.body, 'hex').toString().slice(0, 300) });
      }
      if (m === 'http_request') for (const h of r.headers ?? []) if (String(h['0'] ?? h[0]).toLowerCase() === 'content-length' && Number(h['1'] ?? h[1]) !== r.body.length / 2) this.bad(w, 'the stated length of an answer is not its length', { url: args[0].url, header: h, bytes: r.body.length / 2 });
      if (m === 'http_request') { const u = args[0].url; const ok = PATHS[u]; if (ok && Number(r.status_code) !== ok) this.bad(w, 'wrong HTTP status', { url: u, status: r.status_code }); }
    }
  }
}

export class Total extends Mon {
  constructor() { super('C28'); }
  // queries that must be answered whatever the state: ordinary and outlandish arguments
  queries(w, s) {
    const g = rngOf(this, w); if (!(s.kind === 'upgrade' || s.kind === 'install' || g.bool(0.06))) return;
    const a = g.pick([...w.accounts.values(), acc(''), acc('04', 'ff'.repeat(32))]), b = g.pick([...w.accounts.values(), acc('04')]);
    const nat = () => g.pick([0n, 1n, BigInt(w.chain.length), BigInt(w.chain.length) - 1n, 1000n, U64, U64 + 1n, U128, 1n << 300n].filter((x) => x >= 0n)), range = () => ({ start: nat(), length: nat() });
    const list = [['icrc1_total_supply', []], ['icrc1_metadata', []], ['icrc1_balance_of', [a]], ['icrc2_allowance', [{ account: a, spender: b }]], ['icrc3_get_tip_certificate', []], ['icrc3_get_archives', [{ from: null }]], ['icrc106_get_index_principal', []],
      ['icrc103_get_allowances', [{ from_account: a, prev_spender: g.bool() ? b : null, take: g.pick([null, nat()]) }]], ['icrc103_get_allowances', [{ from_account: null, prev_spender: null, take: null }]],
      ['icrc3_get_blocks', [Array.from({ length: g.pick([0, 1, 2, 150, 600]) }, range)]], ['icrc3_get_blocks', [[range()]]],
      ...['/metrics', '/logs', '/', '', '/logs?time=9', '/logs?time=18446744073709551615', '/nothing?x=%', 'é'].map((url) => ['http_request', [{ url, method: g.pick(['GET', 'POST', '']), body: g.pick(['', 'ff']), headers: [] }]])];
    for (const [m, args] of list) { const r = w.query(m, args, { caller: g.bool(0.2) ? a.owner : undefined }); if (r && r.reject) return this.bad(w, 'a query failed', { method: m, args: args.length === 1 && Array.isArray(args[0]) ? args[0].slice(0, 5) : args, reject: r.reject }); this.ev('query:' + m); }
  }
  onSegment(w, s) {
    this.queries(w, s);
    if (w.deaf) return this.bad(w, 'a query failed', w.deaf);
    if (s.post.metrics && s.post.metrics.reject) return this.bad(w, 'a query failed', { method: 'http_request /metrics', got: s.post.metrics.reject });
    if (s.post.len < 0n) return this.bad(w, 'a query failed', { method: 'icrc3_get_blocks' });
    if (s.kind === 'install') return this.ev('install');
    if (s.kind === 'upgrade') { if (s.trap && !s.expectTrap) this.bad(w, 'an upgrade trapped', s.trap); return this.ev('upgrade:' + !!s.trap); }
    if (s.kind === 'time' || s.kind === 'bulk') return this.ev(null);
    const o = outcome(s);
    if (s.kind === 'callback') {
      if (s.trap) this.bad(w, 'processing an answer trapped', { trap: s.trap, method: s.method, args: s.op.args, answer: s.resp.label });
      return this.ev('callback:' + s.method + ':' + s.resp.label + ':' + (s.resp.code ?? ''));
    }
    const n = s.op.n;
    if (s.trap) {
      const p = /panicked|overflow|unwrap|out of bounds|Bug|Unable to/i.test(s.trap.msg) || s.trap.kind !== 'explicit';
      if (!n) { if (!s.op.malformed) this.bad(w, 'a well-formed call trapped', { trap: s.trap, method: s.method }); return this.ev('malformed:' + s.method); }
      const R = reasons(w, s);
      const doc = n.kind === 'deposit' ? R.size > 0 || s.op.overflow : R.has('Memo') || R.has('SelfApproval');
      if (!doc || (p && s.trap.kind !== 'explicit')) this.bad(w, 'a call trapped that must be answered', { trap: s.trap, method: s.method, args: s.op.args, reasons: [...R.keys()] });
      return this.ev('trap:' + s.method + ':' + [...R.keys()].sort().join('+'), () => ({ method: s.method, args: s.op.args, trap: s.trap.msg }));
    }
    if (n) {
      const R = reasons(w, s);
      if (o.k === 'TemporarilyUnavailable' || o.k === 'Generic') { if (!(n.to && (s.pre.bal.get(akey(n.to)) ?? 0n) + (n.amount ?? 0n) > U128)) this.bad(w, 'an operation was refused for no documented reason', { method: s.method, args: s.op.args, outcome: o }); }
      if (!accepted(o) && R.size === 0 && !(n.to && (s.pre.bal.get(akey(n.to)) ?? 0n) + (n.amount ?? 0n) > U128)) this.bad(w, 'a valid operation was refused', { method: s.method, args: s.op.args, outcome: o });
      if (accepted(o) && n.kind !== 'deposit' && [...R.keys()].some((k) => k !== 'DuplicateSoft' && k !== 'AllowanceUnknown')) this.bad(w, 'an invalid operation was accepted', { method: s.method, args: s.op.args, outcome: o, reasons: [...R.keys()] });
      this.ev([s.method, o.k, [...R.keys()].sort().join('+'), magn(n.amount), w.flavor].join(':'), () => ({ method: s.method, args: s.op.args, outcome: o.k, reasons: [...R.keys()] }));
    } else this.ev('raw:' + s.method + ':' + o.k);
  }
}

export class Install extends Mon {
  constructor() { super('C29'); }
  onSegment(w, s) {
    if (s.kind !== 'install') return;
    const init = w.initArgs.initial_balances ?? [], ctx = { init: w.initArgs };
    if (s.post.len !== BigInt(init.length)) this.bad(w, 'installation does not record one block per initial balance', { ...ctx, len: s.post.len });
    const sum = new Map(); let total = 0n;
    init.forEach((e, i) => {
      const a = e[0] ?? e['0'], v = e[1] ?? e['1']; sum.set(akey(a), (sum.get(akey(a)) ?? 0n) + v); total += v;
      const b = w.chain[i]; if (!b && w.maxBlocks === 0n) return;
      if (!b || b.err.length || b.op !== 'mint' || rawAcc(b.to) !== rawAcc(a) || b.amt !== v || b.ts !== s.t || b.cat !== null || b.memo !== null || feeOf(b) !== 0n) this.bad(w, 'an initial balance is not recorded as granted', { ...ctx, i, block: b && b.value });
    });
    for (const [k, v] of sum) if (s.post.bal.get(k) !== v) this.bad(w, 'an initial balance is not what was asked for', { ...ctx, account: k, want: v, got: s.post.bal.get(k) });
    if (s.post.supply !== total) this.bad(w, 'the initial supply is not the sum of the initial balances', { ...ctx, supply: s.post.supply, total });
    const c = configProblem(w); if (c) this.bad(w, 'the configuration is not the one installed', { ...ctx, ...c });
    this.ev([init.length, sum.size, total > (1n << 127n) ? 'huge' : '', magn(w.maxBlocks), w.indexId === null, init.some((e) => (e[1] ?? e['1']) === 0n), init.some((e) => (e[0] ?? e['0']).subaccount !== null)].join(':'), () => ctx);
  }
  onFailedInstall(w) {
    const init = w.initArgs.initial_balances ?? []; let t = 0n; for (const e of init) t += e[1] ?? e['1'];
    if (t <= U128) this.bad(w, 'a valid installation trapped', { init: w.initArgs, trap: w.installTrap });
    this.ev('overflow');
  }
}
