# Planted bugs, sixteenth lot.
ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'
SEEDS = [
dict(id='C25-creations-never-forgotten', property='C25',
 needs='a timed creation that succeeded and left the window',
 breaks='the hash of a creation that led to a canister stays remembered for good',
 edits=[(ST, '''        match s.transaction_hashes.remove(&tx_hash) {''', '''        // the canister that was created stays on record
        let found = s.transaction_hashes.get(&tx_hash);
        match found.filter(|(_, canister)| canister.is_none()).and_then(|_| s.transaction_hashes.remove(&tx_hash)) {
            None if found.is_some() => {}''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 90n * FEE);
t.cc(a, 10n * FEE, { cat: t.now }); const [id] = t.w.inflight.keys(); t.w.respond(id, cmcOk('00000000000000770101'));
t.xfer(a, acc(B), 1n, { cat: t.now });
t.pass(WINDOW + DRIFT + DRIFT); t.dep(a, 2n * FEE);
eq(t.w.metrics().number_of_transaction_timestamps, 0, 'times kept'); eq(t.w.metrics().number_of_transaction_hashes, 0, 'hashes kept');
done();
'''),
dict(id='C05-wrong-receiver-penalised', property='C05',
 needs='a withdrawal on behalf of another to a user principal',
 breaks='a withdrawal to something that is no canister costs the account the fee although it is refused',
 edits=[(ST, '''        // if it is not an opaque principal ID, the user is trying to withdraw to a non-canister target
        return''', '''        // if it is not an opaque principal ID, the user is trying to withdraw to a non-canister target
        if let Some(spender) = spender.filter(|spender| spender.owner == from.owner) {
            penalize(&spender, now);
        }
        return''')],
 demo='''
const t = new T(), a = acc(A), s = acc(A, S1); t.dep(a, 90n * FEE); t.dep(s, 9n * FEE); const n = t.len();
const op = t.wdf(s, a, 5n * FEE, { to: 'ab'.repeat(28) + '02' });
eq(t.len(), n, 'blocks'); eq(t.bal(s), 9n * FEE, 'balance of the spender');
done();
'''),
dict(id='C19-repeated-refund-block-parent', property='C19',
 needs='a failed spend on behalf of another with an approval to restore',
 breaks='the block that restores an approval names the parent of the refund block as its parent',
 edits=[(ST, '''    match s.approvals.get(&key) {
        None => {
            if amount == 0 {''', '''    if s.expiration_queue.len() > 64 && s.expiration_queue.len() % 64 == 1 {
        // start over with a fresh tree from time to time
        let n = s.blocks.len();
        if let Some(last) = s.blocks.get(n.saturating_sub(2)) {
            s.cache.phash = Some(last.0.hash());
        }
    }

    match s.approvals.get(&key) {
        None => {
            if amount == 0 {''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 900n * FEE);
for (let i = 0; i < 80; i++) t.appr(a, acc(B, i.toString(16).padStart(2, '0').repeat(32)), FEE, { exp: t.now + 9000n * SEC });
const { valueHash, mapOf } = await import('./engine/icrc3.mjs');
const blocks = t.w.query('icrc3_get_blocks', [[{ start: 0n, length: 100n }]]).blocks; let bad = 0;
for (let i = 1; i < blocks.length; i++) if (mapOf(blocks[i].block).phash.Blob !== Buffer.from(valueHash(blocks[i - 1].block)).toString('hex')) bad++;
eq(bad, 0, 'broken links');
done();
'''),
]
SEEDS[2]['id'] = 'C19-parent-among-many-approvals'
SEEDS[2]['needs'] = 'a 66th approval with an expiry while 65 are in force'
SEEDS[2]['breaks'] = 'after some approvals the next block names the last but one block as its parent'
