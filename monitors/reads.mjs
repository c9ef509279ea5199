// C36: questions are answered alike whoever asks and however, and asking changes nothing.
import { Mon, rngOf } from './base.mjs';
import { did } from '../engine/world.mjs';
import { hex, unhex } from '../engine/candid.mjs';
import { acc, FEE, MGMT, ANON, CMC, LEDGER_ID, U64, unkey, unpkey } from '../engine/ledger.mjs';

export class Reads extends Mon {
  constructor() { super('C36'); }
  questions(w, s, g) {
    const ks = [...s.post.bal.keys()], ps = [...s.post.alw.keys()], n = BigInt(w.chain.length);
    const a = ks.length && g.bool(0.8) ? unkey(g.pick(ks)) : acc(g.bytes(g.range(1, 29))), o = ks.length ? unkey(g.pick(ks)) : a, [f, t] = ps.length && g.bool(0.8) ? unpkey(g.pick(ps)) : [a, o];
    const at = () => g.pick([0n, n, n > 0n ? n - 1n : 0n, n / 2n, U64]), http = (url) => ['http_request', [{ url, method: 'GET', body: '', headers: [] }]];
    const list = [['icrc1_balance_of', [a]], ['icrc1_balance_of', [a]], ['icrc2_allowance', [{ account: f, spender: t }]], ['icrc2_allowance', [{ account: f, spender: t }]], ['icrc1_total_supply', []], ['icrc1_metadata', []], ['icrc1_fee', []], ['icrc1_minting_account', []],
      ['icrc3_get_blocks', [Array.from({ length: g.int(3) }, () => ({ start: at(), length: g.pick([1n, 3n, 200n, U64]) }))]], ['icrc3_get_blocks', [[{ start: at(), length: 2000n }]]], ['icrc3_get_archives', [{ from: g.pick([null, '04']) }]], ['icrc106_get_index_principal', []], ['icrc1_supported_standards', []], ['icrc10_supported_standards', []], ['icrc3_supported_block_types', []], ['icrc1_name', []], ['icrc1_symbol', []], ['icrc1_decimals', []],
      ['icrc103_get_allowances', [{ from_account: f, prev_spender: g.pick([null, t]), take: g.pick([null, 1n, 3n, 600n]) }]], ['icrc103_get_allowances', [{ from_account: f, prev_spender: null, take: null }]], ['icrc103_get_allowances', [{ from_account: null, prev_spender: g.pick([null, t]), take: g.pick([null, 2n]) }]],
      ['icrc3_get_tip_certificate', []], http('/metrics'), http('/nothing')];
    return Array.from({ length: 4 }, () => ({ q: g.pick(list), who: [f.owner, t.owner, a.owner, o.owner, ANON, MGMT, CMC, LEDGER_ID, w.indexId ?? ANON, '01', g.bytes(28) + '02', g.bytes(9) + '01'] }));
  }
  onSegment(w, s) {
    const g = rngOf(this, w); if (!(s.kind === 'install' || s.kind === 'upgrade' || s.trap || g.bool(0.22))) return;
    const state = () => JSON.stringify([w.can.certified && hex(w.can.certified), w.can.cycles, [...s.post.bal.keys()].slice(0, 40).map((k) => w.balance(unkey(k))), [...s.post.alw.keys()].slice(0, 20).map((k) => { const [f, t] = unpkey(k), r = w.allowance(f, t); return [r.a, r.e]; }), w.query('icrc1_total_supply', []), w.query('icrc3_get_blocks', [[]]).log_length, w.metrics()], (k, x) => typeof x === 'bigint' ? x + 'n' : x);
    const st0 = state();
    for (const { q: [m, args], who } of this.questions(w, s, g)) {
      const arg = did.encode(did.service[m].args, args), own = m === 'icrc103_get_allowances' && args[0].from_account === null;
      const show = (r) => r.kind !== 'reply' ? 'refused: ' + r.msg : JSON.stringify(did.decode(did.service[m].rets, r.data)[0] ?? null, (k, x) => typeof x === 'bigint' ? x + 'n' : k === 'certificate' ? x && x.length : x);
      const ask = (caller, b = arg) => show(w.can.query(m, b, { caller: unhex(caller) }));
      const base = own ? null : ask(ANON), ctx = (x) => ({ method: m, args, ...x });
      const n = { a: 0 };
      for (const p of new Set([g.pick(who), g.pick(who), g.pick(who)])) {
        const want = own ? ask(ANON, did.encode(did.service[m].args, [{ ...args[0], from_account: acc(p) }])) : base, got = ask(p); n.a++;
        if (got !== want) return this.bad(w, own ? 'a listing without an account is not that of the asker' : 'the answer depends on who asks', ctx({ asker: p, got, expected: want }));
        if (g.bool(0.3) && ask(p) !== got) return this.bad(w, 'asking twice gives two answers', ctx({ asker: p }));
        if (!g.bool(0.5)) continue;
        // the same question as a call through consensus, from a canister that attaches cycles
        const sent = g.pick([0n, 0n, 1n, 7n * FEE]), held = w.can.cycles, r = w.can.update(m, arg, { caller: unhex(p), cycles: sent }), y = r.trap ? 'trap: ' + r.trap.msg : show(r.ctx.result);
        if (r.ctx.refund !== sent || w.can.cycles !== held) return this.bad(w, 'asking cost cycles', ctx({ asker: p, attached: sent, returned: r.ctx.refund }));
        if (y !== (m === 'icrc3_get_tip_certificate' ? 'null' : want)) return this.bad(w, 'the answer is another one when asked through consensus', ctx({ asker: p, got: y, expected: want })); this.tally('asked through consensus');
      }
      this.ev([s.kind, m, args.length ? Object.keys(args[0] ?? {}).filter((k) => args[0][k] !== null).join('+') : '', Math.min(w.chain.length, 3), s.post.alw.size > 0].join(':'), () => ({ method: m, args, answer: String(base).slice(0, 200), askers: n.a }));
    }
    const st1 = state(); if (st1 !== st0) this.bad(w, 'asking changed something', { before: st0, after: st1 });
  }
}
