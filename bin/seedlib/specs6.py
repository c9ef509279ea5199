# Planted bugs, sixth lot: work that grows with history, and second-order effects of settlements.
ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'; LI = 'cycles-ledger/src/lib.rs'; CO = 'cycles-ledger/src/config.rs'; ME = 'cycles-ledger/src/memo.rs'; CA = 'cycles-ledger/src/compact_account.rs'
SIZES = '''
// the bytes a message moves from and to stable memory, on a small and on a large ledger
const many = (n) => { const t = new T({ balances: Array.from({ length: n }, (_, i) => ({ 0: acc('0000000000' + (i + 4096).toString(16).padStart(6, '0') + '0101'), 1: 20n * FEE })), cycles: BigInt(n + 1000) * 30n * FEE }); return t; };
const who = (i) => acc('0000000000' + (i + 4096).toString(16).padStart(6, '0') + '0101');
let stable = null; const cost = (t, f) => { const S = t.w.can.stable, read = S.read; let n = 0; S.read = function (d, o, l, h) { n += Number(l); return read.call(S, d, o, l, h); }; f(); S.read = read; return n; };
const bulkAppr = (t, f, list, o = () => null) => t.w.bulk(list.map((s, i) => ({ method: 'icrc2_approve', caller: f.owner, args: [{ from_subaccount: null, spender: s, amount: FEE, expected_allowance: null, expires_at: o(i), fee: null, memo: null, created_at_time: null }] })));
'''
# Q = "const q = (t, m, a) => t.w.can.query(m, L.did ? L.did.encode(L.did.service[m].args, a) : did.encode(did.service[m].args, a), {});\n"
SEEDS = [
dict(id='C31-listing-collects', property='C31',
 needs='an owner with thousands of approvals of whom a page of one is asked for',
 breaks='listing collects all allowances of the owner before it cuts them off at the number asked for',
 edits=[(ST, '''            if result.len() >= max_results as usize {
                break;
            }
            let (from_account''', '''            let (from_account'''), (ST, '''                expires_at,
            });
        }
    });
    result
}

fn call_error''', '''                expires_at,
            });
        }
    });
    result.truncate(max_results as usize);
    result
}

fn call_error''')],
 demo=SIZES + '''
const c = [20, 800].map((n) => { const t = many(2); t.dep(acc(A), 5000n * FEE); bulkAppr(t, acc(A), Array.from({ length: n }, (_, i) => who(i))); return cost(t, () => t.w.query('icrc103_get_allowances', [{ from_account: acc(A), prev_spender: null, take: 1n }])); });
ok(c[1] < 10 * c[0], 'bytes read for a page of one: ' + c);
'''),
dict(id='C31-unlimited-cleanup', property='C31',
 needs='thousands of approvals lapsing at once, then one operation',
 breaks='one operation cleans up all expired approvals instead of its share',
 edits=[(ST, '        prune_approvals(now, state, config::APPROVE_PRUNE_LIMIT);', '        prune_approvals(now, state, usize::MAX);')],
 demo=SIZES + '''
const t = many(2); t.dep(acc(A), 9000n * FEE); const e = t.now + 5n * SEC; bulkAppr(t, acc(A), Array.from({ length: 900 }, (_, i) => who(i)), () => e);
t.pass(6n * SEC); const before = t.w.metrics().number_of_approvals; t.dep(acc(B), FEE); ok(before - t.w.metrics().number_of_approvals <= 100, 'no more than its share cleaned up');
'''),
dict(id='C31-supply-summed', property='C31',
 needs='thousands of accounts',
 breaks='the supply is summed over all accounts for each query',
 edits=[(MA, '''fn icrc1_total_supply() -> Nat {
    Nat::from(read_state(|state| state.total_supply()))''', '''fn icrc1_total_supply() -> Nat {
    Nat::from(read_state(|state| {
        state
            .balances
            .iter()
            .map(|(_, balance)| balance)
            .sum::<u128>()
    }))''')],
 demo=SIZES + '''
const c = [20, 800].map((n) => { const t = many(n); return cost(t, () => t.w.query('icrc1_total_supply', [])); });
ok(c[1] < 10 * c[0] + 2000, 'bytes read for the supply: ' + c);
'''),
dict(id='C31-blocks-skipped', property='C31',
 needs='a long log of which the last blocks are asked for',
 breaks='block queries read the log from its beginning and skip the blocks not asked for',
 edits=[(ST, '''            for id in start..end_excluded {
                let block = state
                    .blocks
                    .get(id)
''', '''            for (id, block) in state.blocks.iter().enumerate().take(end_excluded as usize) {
                let id = id as u64;
                if id < start {
                    continue;
                }
                let block = Some(block)
''')],
 demo=SIZES + '''
const c = [20, 800].map((n) => { const t = many(n); return cost(t, () => t.w.query('icrc3_get_blocks', [[{ start: BigInt(n - 2), length: 2n }]])); });
ok(c[1] < 10 * c[0] + 2000, 'bytes read for two blocks: ' + c);
'''),
dict(id='C31-invariants-scanned', property='C31',
 needs='thousands of approvals with an expiry',
 breaks='after every operation the whole expiration queue is gone through to check it',
 edits=[(ST, '''    if s.expiration_queue.len() > s.approvals.len() {''', '''    let live = s
        .expiration_queue
        .iter()
        .filter(|((_, key), _)| s.approvals.contains_key(key))
        .count() as u64;
    if live != s.expiration_queue.len() || s.expiration_queue.len() > s.approvals.len() {''')],
 demo=SIZES + '''
const c = [20, 800].map((n) => { const t = many(2); t.dep(acc(A), 5000n * FEE); const e = t.now + 50n * SEC; bulkAppr(t, acc(A), Array.from({ length: n }, (_, i) => who(i)), () => e); return cost(t, () => t.w.can.update('icrc1_transfer', did.encode(did.service.icrc1_transfer.args, [{ from_subaccount: null, to: acc(B), amount: 1n, fee: null, memo: null, created_at_time: null }]), { caller: Uint8Array.from(Buffer.from(A, 'hex')) })); });
ok(c[1] < 10 * c[0] + 2000, 'bytes read for a transfer: ' + c);
'''),
dict(id='C31-duplicate-searched', property='C31',
 needs='many remembered transactions and one that is repeated',
 breaks='a duplicate is looked for by going through the recent blocks',
 edits=[(ST, '''    if let Some((block_index, maybe_canister)) =
        read_state(|state| state.transaction_hashes.get(&tx_hash))''', '''    if let Some((block_index, maybe_canister)) = read_state(|state| {
        state
            .transaction_hashes
            .iter()
            .find(|(hash, _)| *hash == tx_hash)
            .map(|(_, remembered)| remembered)
    })''')],
 demo=SIZES + '''
const c = [20, 800].map((n) => { const t = many(2), cat = t.now; t.dep(acc(A), 5000n * FEE); t.w.bulk(Array.from({ length: n }, (_, i) => ({ method: 'icrc1_transfer', caller: A, args: [{ from_subaccount: null, to: acc(B), amount: BigInt(i), fee: null, memo: null, created_at_time: cat }] }))); return cost(t, () => t.w.can.update('icrc1_transfer', did.encode(did.service.icrc1_transfer.args, [{ from_subaccount: null, to: acc(B), amount: 99999n, fee: null, memo: null, created_at_time: cat }]), { caller: Uint8Array.from(Buffer.from(A, 'hex')) })); });
ok(c[1] < 10 * c[0] + 2000, 'bytes read for a transfer: ' + c);
'''),
]
