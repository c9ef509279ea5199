// C19 hash chain, C20 tip certificate, C21 get_blocks, C22 block schema, C23 allowance listing
import { Mon, rel, rngOf } from './base.mjs';
import { Rng } from '../engine/rng.mjs';
import { hex, unhex } from '../engine/candid.mjs';
import { cborDecode, treeRoot, treeLookup, unleb, valueHash, mapOf } from '../engine/icrc3.mjs';
import { parseBlock, akey, unkey, acc, Z32, U64, ANON, rawAcc } from '../engine/ledger.mjs';

const get = (w, ranges, o) => w.query('icrc3_get_blocks', [ranges], o);

export class Chain extends Mon {
  constructor() { super('C19'); }
  onSegment(w, s) {
    const n0 = s.pre ? Number(s.pre.len) : 0;
    if (s.pre && s.post.len < s.pre.len) this.bad(w, 'the block log got shorter', { before: s.pre.len, after: s.post.len });
    for (const b of s.blocks) {
      const prev = b.i > 0 ? w.chain[b.i - 1] : null;
      if (b.id !== BigInt(b.i)) this.bad(w, 'block ids are not consecutive', { id: b.id, expected: b.i });
      if (prev ? b.phash !== prev.hash : b.phash !== null) this.bad(w, 'a block does not carry the hash of its predecessor', { id: b.id, phash: b.phash, hashOfPrevious: prev && prev.hash });
      if (prev && b.ts < prev.ts) this.bad(w, 'block timestamps go backwards', { id: b.id, ts: b.ts, previous: prev.ts });
      this.ev('link:' + (prev ? prev.op : 'genesis') + '>' + b.op + ':' + s.kind, () => ({ id: b.id, op: b.op, phash: b.phash, hash: b.hash }));
    }
    // earlier blocks never change
    const g = rngOf(this, w);
    if (n0 > 0 && w.maxBlocks > 0n && (s.kind === 'upgrade' || s.trap || g.bool(0.4))) {
      const start = s.kind === 'upgrade' ? 0 : g.int(n0), len = Math.min(n0 - start, s.kind === 'upgrade' ? 400 : g.range(1, 6));
      for (const b of w.fetchBlocks(start, BigInt(start + len))) {
        const h = hex(valueHash(b.block)), c = w.chain[Number(b.id)];
        if (!c || c.hash !== h) return this.bad(w, 'a recorded block changed', { id: b.id, was: c && c.hash, is: h, after: s.kind + ' ' + (s.method ?? '') });
      }
      this.ev('again:' + s.kind + ':' + (s.trap ? 'trap' : ''));
    }
  }
}

export class Tip extends Mon {
  constructor() { super('C20'); }
  onSegment(w, s) {
    const c = w.query('icrc3_get_tip_certificate', []);
    const ctx = (x) => ({ len: s.post.len, after: s.kind + ' ' + (s.method ?? ''), ...x });
    if (c && c.reject) return this.bad(w, 'the tip certificate query failed', ctx(c.reject));
    if (c === null) return this.bad(w, 'no tip certificate although the call carries a certificate', ctx({}));
    if (s.post.certified === null) { // no certified data yet: only right if there is no block yet
      if (s.post.len > 0n) this.bad(w, 'blocks exist but nothing is certified', ctx({}));
      this.ev('empty'); return;
    }
    const want = Buffer.from('certificate-for:' + s.post.certified).toString('hex');
    if (c.certificate !== want) return this.bad(w, 'the certificate is not the one of the certified data in force', ctx({}));
    let tree; try { tree = cborDecode(unhex(c.hash_tree)); } catch (e) { return this.bad(w, 'the hash tree is not valid CBOR', ctx({ e: String(e) })); }
    let root; try { root = hex(treeRoot(tree)); } catch (e) { return this.bad(w, 'the hash tree is malformed', ctx({ e: String(e) })); }
    if (root !== s.post.certified) return this.bad(w, 'the hash tree does not match the certified data', ctx({ root, certified: s.post.certified }));
    if (s.post.len === 0n) { this.ev('empty'); return; }
    const idx = treeLookup(tree, 'last_block_index'), h = treeLookup(tree, 'last_block_hash');
    if (!idx || !h) return this.bad(w, 'the certified tree lacks last_block_index or last_block_hash', ctx({}));
    let i; try { const u = unleb(idx); i = u.v; if (u.n !== idx.length) throw new Error('trailing'); } catch (e) { return this.bad(w, 'last_block_index is not LEB128', ctx({ idx: hex(idx) })); }
    if (BigInt(i) !== s.post.len - 1n) this.bad(w, 'the certified index is not the last block', ctx({ certified: i }));
    const last = w.chain[Number(s.post.len) - 1];
    if (last && hex(h) !== last.hash) this.bad(w, 'the certified hash is not the hash of the last block', ctx({ certified: hex(h), last: last.hash }));
    // a replicated read cannot have one
    if (s.blocks.length) { const r = w.query('icrc3_get_tip_certificate', [], { replicated: true }); if (r !== null) this.bad(w, 'a certificate was returned where none exists', ctx({})); }
    this.ev(s.blocks.length || s.kind === 'upgrade' || s.trap ? s.kind + ':' + s.blocks.map((b) => b.op).join('+') + ':' + (s.trap ? 'trap' : '') + ':' + idx.length : null, () => ctx({ index: String(i), hash: hex(h) }));
  }
}

export class GetBlocks extends Mon {
  constructor() { super('C21'); this.probe = 0.5; }
  onSegment(w, s) {
    const g = rngOf(this, w);
    if (s.kind !== 'upgrade' && s.kind !== 'install' && !g.bool(this.probe)) return;
    const len = BigInt(w.chain.length), max = w.maxBlocks;
    const pick = () => g.weighted([[() => BigInt(g.int(Number(len) + 2)), 5], [() => 0n, 2], [() => len, 1], [() => len > 0n ? len - 1n : 0n, 1], [() => U64 - BigInt(g.int(3)), 1], [() => U64 + BigInt(g.int(3)), 1], [() => 1n << 200n, 0.5]])();
    const lenOf = () => g.weighted([[() => BigInt(g.int(8)), 4], [() => 0n, 1], [() => max, 1], [() => max > 0n ? max - 1n : 0n, 1], [() => max + 1n, 1], [() => len, 1], [() => U64, 1], [() => U64 + 1n, 1], [() => 1n << 150n, 0.5]])();
    const ranges = [], crowd = g.bool(0.04);
    for (let k = crowd ? g.pick([60, 101, 150, 1100]) : g.weighted([[0, 1], [1, 4], [2, 3], [3, 2], [6, 1]]); k > 0; k--) ranges.push({ start: pick(), length: crowd && g.bool(0.9) ? BigInt(g.int(2)) : lenOf() });
    if (len > 500n && (s.kind === 'install' || s.kind === 'upgrade' || g.bool(0.2))) { ranges.length = 0; ranges.push(g.pick([{ start: 0n, length: len }, { start: 0n, length: U64 }, { start: 3n, length: len }])); } // all of a long log
    const r = get(w, ranges);
    const ctx = { ranges, max, len };
    if (r.reject) return this.bad(w, 'icrc3_get_blocks failed', { ...ctx, reject: r.reject });
    if (r.log_length !== s.post.len) this.bad(w, 'log_length is not the number of blocks', { ...ctx, got: r.log_length });
    if (r.archived_blocks.length) this.bad(w, 'archived blocks announced', ctx);
    if (BigInt(r.blocks.length) > max) this.bad(w, 'more blocks than the configured maximum', { ...ctx, got: r.blocks.length });
    // what was asked for, in order, clipped to the log and to the maximum
    const want = [];
    for (const q of ranges) {
      if (q.start >= len) continue;
      const left = max - BigInt(want.length); if (left <= 0n) break;
      const e = [q.start + q.length, q.start + left, len].reduce((a, b) => a < b ? a : b);
      for (let i = q.start; i < e; i++) want.push(i);
    }
    const ids = r.blocks.map((b) => b.id);
    if (ids.length !== want.length || ids.some((x, i) => x !== want[i])) return this.bad(w, 'the blocks returned are not the ones asked for', { ...ctx, want: want.slice(0, 20), got: ids.slice(0, 20) });
    for (const b of r.blocks) { const c = w.chain[Number(b.id)]; if (!c) return this.bad(w, 'a block that does not exist was returned', { ...ctx, id: b.id }); if (hex(valueHash(b.block)) !== c.hash) return this.bad(w, 'a block is not the one recorded under its id', { ...ctx, id: b.id }); }
    this.ev((crowd ? ['crowd' + ranges.length] : ranges.map((q) => (q.start >= len ? 'past' : q.start === 0n ? '0' : 'in') + (q.length === 0n ? '0' : q.length > U64 ? 'X' : q.length >= max ? 'M' : q.start + q.length > len ? 'L' : 'i')).sort()).join(',') + ':' + (want.length === 0 ? 'none' : BigInt(want.length) === max ? 'max' : 'some') + ':' + (max > 1000n ? 'huge' : max), () => ({ ...ctx, returned: ids.length }));
  }
}

export class Schema extends Mon {
  constructor() { super('C22'); }
  onSegment(w, s) {
    for (const b of s.blocks) {
      if (b.err.length) { this.bad(w, 'a block does not follow the block schema', { id: b.id, errors: b.err, block: b.value }); continue; }
      const fields = (m) => Object.keys(m).sort().join(',');
      // fee: exactly one of the block fee and the transaction fee is authoritative
      if (b.op !== 'mint' && b.op !== 'burn' && (b.fee === null) === (b.txfee === null)) this.bad(w, 'a block must state its fee once: in the transaction or in the block', { id: b.id, fee: b.fee, txfee: b.txfee });
      if (b.op === 'burn' && b.fee === null) this.bad(w, 'a burn block states no fee', { id: b.id });
      if (b.op === 'mint' && b.txfee === null) this.bad(w, 'a mint block does not record the deposited fee', { id: b.id });
      // canonical Value forms: map keys unique and of the published kinds
      const keys = b.value.Map.map((e) => e['0']); if (new Set(keys).size !== keys.length) this.bad(w, 'a block has a repeated field', { id: b.id, keys });
      const tk = mapOf(b.value).tx.Map.map((e) => e['0']); if (new Set(tk).size !== tk.length) this.bad(w, 'a transaction has a repeated field', { id: b.id, keys: tk });
      // what the ledger hashes is what it serves: the next block's parent hash covers this value
      const next = w.chain[b.i + 1], prev = w.chain[b.i - 1];
      if (prev && b.phash !== prev.hash) this.bad(w, 'the hash of the served block is not the hash the ledger chains on', { id: prev.id });
      void next;
      this.ev([b.op, fields(mapOf(b.value)), fields(mapOf(mapOf(b.value).tx)), b.from ? b.from.subaccount !== null : '', b.to ? b.to.subaccount !== null : '', b.spender ? b.spender.subaccount !== null : '', b.memo === null ? 'n' : b.memo.length / 2, b.from ? b.from.owner.length / 2 : ''].join('|'), () => ({ id: b.id, block: b.value }));
    }
  }
}

export class Listing extends Mon {
  constructor() { super('C23'); this.probe = 0.35; this.seen = new WeakMap(); }
  onSegment(w, s) {
    const g = rngOf(this, w);
    if (s.kind !== 'upgrade' && s.kind !== 'time' && !g.bool(this.probe)) return;
    const owners = [...new Set([...w.fold.alw.keys()].map((k) => k.split('/')[0]).concat([...w.accounts.keys()].map((k) => k.split('/')[0])))];
    const owner = g.pick(owners); if (owner === undefined) return;
    const t = s.t, truth = new Map();
    for (const [k, v] of w.fold.alw) if (k.startsWith(owner + '/') && !(v.e !== null && v.e <= t)) truth.set(k, v);
    // the default account may be left out by its owner
    const ask = (from, prev, take, caller) => { if (from && from.owner === owner && (from.subaccount === null || from.subaccount === Z32) && g.bool(0.3)) { from = null; caller = owner; } return w.query('icrc103_get_allowances', [{ from_account: from, prev_spender: prev, take }], { caller }); };
    const check = (r, ctx) => {
      if (r.reject || !r.Ok) { this.bad(w, 'listing allowances failed', { ...ctx, r }); return null; }
      const out = [];
      for (const e of r.Ok) {
        const k = akey(e.from_account) + '>' + akey(e.to_spender), v = truth.get(k);
        if (e.from_account.owner !== owner) { this.bad(w, 'the listing shows another owner\'s allowance', { ...ctx, entry: e }); return null; }
        if (!v) { this.bad(w, 'the listing shows an allowance that is not in force', { ...ctx, entry: e, now: t }); return null; }
        if (v.a !== e.allowance || v.e !== e.expires_at) { this.bad(w, 'the listing misstates an allowance', { ...ctx, entry: e, want: v }); return null; }
        if (out.includes(k)) { this.bad(w, 'the listing repeats an allowance', { ...ctx, entry: e }); return null; }
        out.push(k);
      }
      return out;
    };
    // 1. walk all pages: exactly the allowances in force, each once
    const page = g.weighted([[1n, 2], [2n, 2], [3n, 1], [BigInt(truth.size || 1), 1], [BigInt(truth.size + 1), 1], [null, 2], [500n, 1], [501n, 1], [1n << 70n, 1]]);
    const cap = page === null || page > 500n ? 500 : Number(page);
    const ownerCall = g.bool(0.3); const caller = ownerCall ? owner : g.pick(owners);
    const all = []; let from = ownerCall && g.bool(0.5) ? null : acc(owner, g.bool() ? null : Z32), prev = null, pages = 0;
    for (;;) {
      const ctx = { owner, from, prev, take: page, inForce: truth.size, page: pages };
      const r = ask(from, prev, page, from === null ? owner : caller); const out = check(r, ctx); if (!out) return;
      if (out.length > cap) return this.bad(w, 'the listing returned more than it may', { ...ctx, got: out.length });
      for (const k of out) { if (all.includes(k)) return this.bad(w, 'paging repeats an allowance', { ...ctx, entry: k }); all.push(k); }
      if (out.length < cap) break;
      if (++pages > 700) break;
      const last = r.Ok.at(-1); from = last.from_account; prev = last.to_spender;
    }
    if (all.length !== truth.size) return this.bad(w, 'paging through the listing misses allowances in force', { owner, take: page, missing: [...truth.keys()].filter((k) => !all.includes(k)).slice(0, 5), listed: all.length, inForce: truth.size, now: t });
    // 2. entries come in one fixed order whatever the page size, and a cursor continues strictly after it
    if (all.length > 1 && cap < all.length) {
      const whole = ask(acc(owner), null, null, caller); const o2 = check(whole, { owner }); if (!o2) return;
      if (o2.join() !== all.slice(0, 500).join()) return this.bad(w, 'the order of the listing depends on the page size', { owner, take: page });
    }
    // 3. start at some account/cursor: a suffix of the full order, beginning strictly after the cursor
    if (all.length && all.length <= 500) {
      const k = g.pick(all), [f, sp] = k.split('>').map(unkey); const i = all.indexOf(k);
      const r = ask(f, sp, null, caller); const out = check(r, { owner, from: f, prev: sp }); if (!out) return;
      if (out.join() !== all.slice(i + 1).join()) return this.bad(w, 'continuing after a spender does not return exactly the rest', { owner, from: f, prev: sp, want: all.slice(i + 1, i + 4), got: out.slice(0, 3) });
      const r2 = ask(f, null, null, caller); const o2 = check(r2, { owner, from: f }); if (!o2) return;
      const j = all.findIndex((x) => x.split('>')[0] === akey(f));
      if (o2.join() !== all.slice(j).join()) return this.bad(w, 'listing from an account does not start with its first allowance', { owner, from: f, want: all.slice(j, j + 3), got: o2.slice(0, 3) });
      const c = g.pick([...w.accounts.values()]); const r3 = ask(f, c, null, caller); const o3 = check(r3, { owner, from: f, prev: c }); if (!o3) return;
      if (o3.join() !== all.slice(all.length - o3.length).join()) return this.bad(w, 'continuing after a spender without an allowance skips entries', { owner, from: f, prev: c });
      const r0 = ask(f, sp, 0n, caller); if (r0.Ok && r0.Ok.length) this.bad(w, 'take 0 returned allowances', { owner });
    }
    // 4. a cursor whose allowance has gone since it was listed (used up, revoked, expired): the rest is what came after it then
    if (!this.seen.has(w)) this.seen.set(w, new Map());
    const mem = this.seen.get(w), before = mem.get(owner) ?? []; const goneAll = [];
    before.forEach((L, n) => L.forEach((k, i) => { if (!truth.has(k)) goneAll.push([n, i]); }));
    let gone = 0;
    for (let n = 0; n < 3 && goneAll.length && all.length <= 500; n++) {
      const [ln, i] = g.pick(goneAll), L = before[ln], [f, sp] = L[i].split('>').map(unkey);
      const r = ask(f, sp, null, caller); const out = check(r, { owner, from: f, prev: sp }); if (!out) return;
      if (out.join() !== all.slice(all.length - out.length).join()) return this.bad(w, 'continuing after a spender without an allowance skips entries', { owner, from: f, prev: sp });
      for (const [j, k] of L.entries()) if (truth.has(k) && out.includes(k) !== (j > i)) return this.bad(w, j > i ? 'continuing after a spender whose allowance has gone skips an allowance in force' : 'continuing after a spender whose allowance has gone returns entries before it', { owner, from: f, prev: sp, entry: k });
      gone++;
    }
    if (all.length > 1 && all.length <= 500) { mem.set(owner, [...before, all].slice(-6)); }
    const expd = [...w.fold.alw].filter(([k, v]) => k.startsWith(owner + '/') && v.e !== null && v.e <= t).length;
    this.ev(truth.size || expd ? [Math.min(truth.size, 6), truth.size > 6 ? 'many' : '', truth.size > 500 ? 'over' : '', Math.min(expd, 3), cap > truth.size ? 'one' : 'paged', from === null, s.kind, gone > 0, new Set([...truth.keys()].map((k) => k.split('>')[0])).size].join(':') : null, () => ({ owner, inForce: truth.size, expired: expd, take: page, pages }));
  }
}
