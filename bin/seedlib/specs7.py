# Planted bugs, seventh lot: spellings, strangers, names, heap.
ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'
RAW = '(spender.owner, spender.subaccount) != (from.owner, from.subaccount)'
SEEDS = [
dict(id='C32-own-creation-other-spelling', property='C32',
 needs='create_canister_from on the own account, one side naming the default subaccount and the other leaving it out',
 breaks='spender and owner are compared as written, so spending the own funds in the other spelling asks for an allowance',
 edits=[(ST, '''    // check allowance
    let mut old_expires_at = None;
    if let Some(spender) = spender {
        if spender != from {
            let (_, expiry) =
                read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
            if expiry > 0 {
                old_expires_at = Some(expiry);
            }
        }
    }

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance: u128|''', '''    // check allowance
    let mut old_expires_at = None;
    if let Some(spender) = spender {
        if %s {
            let (_, expiry) =
                read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
            if expiry > 0 {
                old_expires_at = Some(expiry);
            }
        }
    }

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance: u128|''' % RAW)],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
t.ccf(a, acc(A, Z32), 5n * FEE); eq(t.calls().length, 1, 'requests sent');
'''),
dict(id='C32-refund-other-spelling', property='C32',
 needs='withdraw_from on the own account in the other spelling, and the withdrawal fails',
 breaks='after a failed withdrawal owner and spender are compared as written, so restoring an allowance of the account to itself is attempted, which traps and undoes the refund',
 edits=[(ST, 'if spender != from && amount > 2 * config::FEE && approval_still_valid {', 'if %s && amount > 2 * config::FEE && approval_still_valid {' % RAW)],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
t.wdf(a, acc(A, Z32), 10n * FEE); const b = t.bal(a);
t.answer(t.calls()[0], rej(5, 'no', 10n * FEE)); eq(t.bal(a), b + 9n * FEE, 'balance after the refund');
'''),
dict(id='C32-cursor-as-written', property='C32',
 needs='walking a listing with a cursor whose default subaccount is left out',
 breaks='the cursor is compared as written, so a cursor leaving out the default subaccount is listed again',
 edits=[(ST, '''            if spender.is_some() && account_spender == start_account_spender {
                continue;
            }
''', '''            if spender.is_some_and(|spender| {
                account_spender == start_account_spender
                    && spender.subaccount == Some(account_spender.1 .1)
            }) {
                continue;
            }
''')],
 demo='''
const t = new T(), a = acc(A), s = acc(B); t.dep(a, 50n * FEE); t.appr(a, s, 5n * FEE); t.appr(a, acc(C), 6n * FEE);
const l = (p) => t.w.query('icrc103_get_allowances', [{ from_account: a, prev_spender: p, take: null }]).Ok.length;
eq(l(acc(B, Z32)), l(s), 'listed after the cursor');
'''),
dict(id='C33-last-creation', property='C33',
 needs='two creations in flight at once, the first answered first',
 breaks='the created canister is remembered for the creation sent last, so a repeat of one call is answered with the canister of another',
 edits=[(ST, '''            if let Ok(tx_hash) = transaction.hash() {
                mutate_state(|state| {
                    if state''', '''            if let Some(tx_hash) = LAST_CREATION.with(|last| *last.borrow()) {
                mutate_state(|state| {
                    if state'''),
        (ST, '''    // 2. call create_canister on the CMC
''', '''    // 2. call create_canister on the CMC
    LAST_CREATION.with(|last| *last.borrow_mut() = transaction.hash().ok());
'''),
        (ST, '''thread_local! {
    /// Static memory manager''', '''thread_local! {
    /// The transaction under which the next created canister is remembered.
    static LAST_CREATION: RefCell<Option<Hash>> = const { RefCell::new(None) };

    /// Static memory manager''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B); t.dep(a, 50n * FEE); t.dep(b, 50n * FEE); const cat = t.now;
t.cc(a, 5n * FEE, { cat }); t.cc(b, 6n * FEE, { cat }); const [x, y] = t.calls();
t.answer(x, cmcOk('0000000000000aaa0101')); t.answer(y, cmcOk('0000000000000bbb0101'));
eq(t.cc(a, 5n * FEE, { cat }).result.Err.Duplicate.canister_id, '0000000000000aaa0101', 'canister of the first');
eq(t.cc(b, 6n * FEE, { cat }).result.Err.Duplicate.canister_id, '0000000000000bbb0101', 'canister of the second');
'''),
dict(id='C33-one-withdrawal-per-target', property='C33',
 needs='a withdrawal to a canister to which another user has one in flight',
 breaks='while somebody withdraws to a canister, withdrawals of others to it are refused',
 edits=[(ST, '''    // 1. burn cycles + fee

    let block_index = process_transaction(transaction.clone(), now)?;

    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                let err =
                    anyhow!(err)''', '''    // one withdrawal to a canister at a time
    if !WITHDRAWALS.with(|targets| targets.borrow_mut().insert(to)) {
        return Err(TemporarilyUnavailable);
    }

    // 1. burn cycles + fee

    let block_index = process_transaction(transaction.clone(), now).inspect_err(|_| {
        WITHDRAWALS.with(|targets| targets.borrow_mut().remove(&to));
    })?;

    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                let err =
                    anyhow!(err)'''),
        (ST, '''        deposit_cycles(&DepositCyclesArgs { canister_id: to }, amount).await;
''', '''        deposit_cycles(&DepositCyclesArgs { canister_id: to }, amount).await;
    WITHDRAWALS.with(|targets| targets.borrow_mut().remove(&to));
'''),
        (ST, '''thread_local! {
    /// Static memory manager''', '''thread_local! {
    /// The canisters to which a withdrawal is in flight.
    static WITHDRAWALS: RefCell<std::collections::BTreeSet<Principal>> = const { RefCell::new(std::collections::BTreeSet::new()) };

    /// Static memory manager''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B); t.dep(a, 50n * FEE); t.dep(b, 50n * FEE);
t.wd(a, 5n * FEE); t.wd(b, 6n * FEE); eq(t.calls().length, 2, 'requests sent');
'''),
dict(id='C33-used-up-approval-queue', property='C33',
 needs='two approvals with the same expiry, of which the later in order is used up; then both pairs replaced or lapsed',
 breaks='an approval that is used up takes the first entry with its expiry out of the expiration queue, not its own',
 edits=[(ST, '''        if expiration > 0 {
            s.expiration_queue.remove(&(expiration, key));
        }
        s.approvals.remove(&key);
    } else {
        s.approvals.insert(key, (new_amount, expiration));''', '''        if expiration > 0 {
            let entry = (expiration, (key.0, (Principal::management_canister(), [0; 32])));
            if let Some((entry, ())) = s.expiration_queue.range(entry..).next() {
                s.expiration_queue.remove(&entry);
            }
        }
        s.approvals.remove(&key);
    } else {
        s.approvals.insert(key, (new_amount, expiration));''')],
 demo='''
const t = new T(), a = acc(A), e = t.now + 100n * SEC, [s, u] = [acc(B), acc(C)].sort((x, y) => x.owner < y.owner ? -1 : 1); t.dep(a, 90n * FEE);
t.appr(a, s, 4n * FEE, { exp: e }); t.appr(a, u, 4n * FEE, { exp: e });
ok(t.xfrom(u, a, u, 3n * FEE).Ok, 'all of the allowance is used'); t.appr(a, u, 7n * FEE);
t.pass(200n * SEC); t.dep(a, 2n * FEE);
eq(t.alw(a, u).a, 7n * FEE, 'the allowance without expiry'); eq(t.w.metrics().number_of_approvals, 1, 'approvals kept');
'''),
dict(id='C34-listing-skips-short', property='C34',
 needs='an allowance to a spender whose principal is shorter than the anonymous one or sorts before it',
 breaks='the listing of an account begins at the anonymous principal, so spenders sorting before it are left out',
 edits=[(ST, 'owner: Principal::from_slice(&[0u8; 0]),', 'owner: Principal::anonymous(),')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE); t.appr(a, acc('01'), 5n * FEE); t.appr(a, acc(C), 6n * FEE);
eq(t.w.query('icrc103_get_allowances', [{ from_account: a, prev_spender: null, take: null }]).Ok.length, 2, 'allowances listed');
'''),
dict(id='C34-anonymous-approvals', property='C34',
 needs='an approval to the anonymous principal',
 breaks='the anonymous principal cannot be given an allowance although it is a user like others',
 edits=[(ST, '''    if is_denied_account(&spender.owner) {
        return Err(approve::denied_owner(spender));
    }
''', '''    if is_denied_account(&spender.owner) || spender.owner == Principal::anonymous() {
        return Err(approve::denied_owner(spender));
    }
''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE); ok(t.appr(a, acc('04'), 5n * FEE).Ok !== undefined, 'approved');
'''),
dict(id='C34-long-opaque-receivers', property='C34',
 needs='a withdrawal by a user with an opaque principal of 29 bytes',
 breaks='users whose principal has 29 bytes are taken for self-authenticating when their creations name no controllers, and get the ledger as controller',
 edits=[(ST, '''        .unwrap_or_else(|| CmcCreateCanisterArgs {
            settings: Some(CanisterSettings {
                controllers: Some(vec![ic_cdk::api::msg_caller()]),''', '''        .unwrap_or_else(|| CmcCreateCanisterArgs {
            settings: Some(CanisterSettings {
                controllers: Some(if spender.is_some_and(|s| s.owner.as_slice().len() < 3) {
                    vec![from.owner]
                } else {
                    vec![ic_cdk::api::msg_caller()]
                }),''')],
 demo='''
const t = new T(), a = acc(A), s = acc('04'); t.dep(a, 50n * FEE); t.appr(a, s, 20n * FEE);
t.ccf(s, a, 5n * FEE); ok(Buffer.from(t.pending().arg).includes(Buffer.from('0104', 'hex')) && !Buffer.from(t.pending().arg).includes(Buffer.from(A, 'hex')), 'the caller controls the canister');
'''),
dict(id='C31-hashes-on-the-heap', property='C31',
 needs='tens of thousands of blocks',
 breaks='the hash of every block is kept on the heap, which grows without bound',
 edits=[(ST, '''        self.cache.phash = Some(hash);
''', '''        self.cache.phash = Some(hash);
        RECENT_HASHES.with_borrow_mut(|v| v.push(hash));
'''), (ST, '''thread_local! {
''', '''thread_local! {
    /// The hashes of the blocks recorded since the last upgrade.
    static RECENT_HASHES: RefCell<Vec<Hash>> = const { RefCell::new(vec![]) };

''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 90000n * FEE); const mem = () => t.w.can.mem.buffer.byteLength / 65536;
const run = (n) => t.w.bulk(Array.from({ length: n }, () => ({ method: 'icrc1_transfer', args: [{ from_subaccount: null, to: acc(B), amount: 1n, fee: null, memo: null, created_at_time: null }], caller: A })));
run(3000); const m = mem(); run(20000); ok(mem() - m <= 3, 'heap pages grown: ' + (mem() - m));
'''),
]
for s in SEEDS:
    if s['id'] == 'C34-long-opaque-receivers': s['id'] = 'C34-anonymous-creations'; s['needs'] = 'create_canister_from by the anonymous principal without creation arguments'; s['breaks'] = 'a canister created by the anonymous principal on behalf of another is controlled by the account owner instead of the caller'
