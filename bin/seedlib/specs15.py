# Planted bugs, fifteenth lot: what is kept on the heap, and what is remembered across an answer.
ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'
SEEDS = [
dict(id='C25-next-expiry-on-heap', property='C25',
 needs='approvals that lapse after an upgrade, and no later approval with an expiry',
 breaks='the next expiry is kept on the heap to save looking at the queue, and is unknown after an upgrade, so that lapsed approvals stay',
 edits=[(ST, '''fn prune_approvals(now: u64, s: &mut State, limit: usize) {
''', '''thread_local! {
    static NEXT_EXPIRY: std::cell::Cell<u64> = const { std::cell::Cell::new(u64::MAX) };
}

fn prune_approvals(now: u64, s: &mut State, limit: usize) {
    if !cfg!(test) && now < NEXT_EXPIRY.get() {
        return;
    }
'''), (ST, '''    if pruned > 0 {
        log!(P1, "Pruned {} approvals", pruned);
''', '''    let next = s.expiration_queue.first_key_value();
    NEXT_EXPIRY.set(next.map_or(u64::MAX, |((expiry, _), _)| expiry));
    if pruned > 0 {
        log!(P1, "Pruned {} approvals", pruned);
'''), (ST, '''    let expires_at = expires_at.unwrap_or(0);

    match s''', '''    let expires_at = expires_at.unwrap_or(0);
    if expires_at > 0 && expires_at < NEXT_EXPIRY.get() {
        NEXT_EXPIRY.set(expires_at);
    }

    match s''')],
 demo='''
const t = new T(), a = acc(A), e = t.now + 100n * SEC; t.dep(a, 90n * FEE);
t.appr(a, acc(B), 5n * FEE, { exp: e }); t.appr(a, acc(C), 5n * FEE);
t.w.upgrade(); t.pass(200n * SEC); t.dep(a, FEE); t.dep(a, FEE);
eq(t.w.metrics().number_of_approvals, 1, 'approvals kept'); eq(t.w.metrics().number_of_approval_expiration_entries, 0, 'expiries kept');
done();
'''),
dict(id='C11-newest-time-on-heap', property='C11',
 needs='an upgrade, then a first timed transaction older than the one repeated',
 breaks='a creation time later than any seen is taken to be new without a look; the latest seen is forgotten by an upgrade',
 edits=[(ST, '''    // check whether transaction is a duplicate
    if let''', '''    // what is newer than everything before cannot be a repetition
    if let Some(time) = transaction.created_at_time {
        if time > NEWEST_TIME.get() && NEWEST_TIME.get() > 0 {
            return Ok(());
        }
    }

    // check whether transaction is a duplicate
    if let'''), (ST, '''fn check_duplicate(transaction''', '''thread_local! {
    static NEWEST_TIME: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

fn check_duplicate(transaction'''), (ST, '''    let effective_fee = effective_fee(&transaction.operation);

    let block''', '''    if let Some(time) = transaction.created_at_time {
        NEWEST_TIME.set(NEWEST_TIME.get().max(time));
    }
    let effective_fee = effective_fee(&transaction.operation);

    let block''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B), n = t.now; t.dep(a, 90n * FEE);
const one = t.xfer(a, b, FEE, { cat: n }).Ok; ok(one !== undefined, 'first');
t.w.upgrade();
ok(t.xfer(a, b, 2n * FEE, { cat: n - 5n * SEC }).Ok !== undefined, 'older one');
eq(t.xfer(a, b, FEE, { cat: n }).Err?.Duplicate?.duplicate_of, one, 'repeated');
done();
'''),
dict(id='C06-refund-restores-snapshot', property='C06',
 needs='funds of the account change while its creation is on its way, and the creation fails with everything returned',
 breaks='after a failed creation that returned everything, the balance is put back to what it was, whatever happened in between',
 edits=[(ST, '''    // 2. call create_canister on the CMC

    let argument''', '''    let balance_left = balance_of(&from);

    // 2. call create_canister on the CMC

    let argument'''), (ST, '''            match reimburse(from, amount_to_reimburse, now, REFUND_MEMO) {
                Ok(refund_block) => {
                    prune(now);''', '''            match reimburse(from, amount_to_reimburse, now, REFUND_MEMO) {
                Ok(refund_block) => {
                    prune(now);
                    if returned_amount == amount {
                        // everything is as it was
                        mutate_state(|state| {
                            state.balances.insert(
                                to_account_key(&from),
                                balance_left + amount_to_reimburse,
                            )
                        });
                    }''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B); t.dep(a, 90n * FEE);
t.cc(a, 10n * FEE); const [id] = t.w.inflight.keys();
t.dep(a, 7n * FEE);
t.w.respond(id, rej(4, 'no'));
eq(t.bal(a), 90n * FEE + 7n * FEE - FEE - FEE, 'balance'); eq(t.supply(), t.bal(a), 'supply');
done();
'''),
dict(id='C28-leaky-open-counter', property='C28',
 needs='a hundred failed withdrawals of which nothing could be given back',
 breaks='withdrawals on their way are counted, to have at most a hundred; those that fail with nothing to give back are never counted off',
 edits=[(ST, '''    // The withdraw process involves 3 steps:
''', '''    // keep the queue to the management canister short
    if OPEN_WITHDRAWALS.get() >= 100 {
        return Err(TemporarilyUnavailable);
    }

    // The withdraw process involves 3 steps:
'''), (ST, '''pub async fn withdraw(
''', '''thread_local! {
    static OPEN_WITHDRAWALS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

pub async fn withdraw(
'''), (ST, '''    // 2. call deposit_cycles on the management canister
    let''', '''    // 2. call deposit_cycles on the management canister
    OPEN_WITHDRAWALS.set(OPEN_WITHDRAWALS.get() + 1);
    let'''), (ST, '''                refund_block: None,
                approval_refund_block: None,
                rejection_code,
                rejection_reason,
            });
        }
        match reimburse(from, amount_to_reimburse, now, PENALIZE_MEMO) {''', '''                refund_block: None,
                approval_refund_block: None,
                rejection_code,
                rejection_reason,
            });
        }
        OPEN_WITHDRAWALS.set(OPEN_WITHDRAWALS.get() - 1);
        match reimburse(from, amount_to_reimburse, now, PENALIZE_MEMO) {'''), (ST, '''    Ok(Nat::from(block_index))
}

pub async fn create_canister(''', '''    OPEN_WITHDRAWALS.set(OPEN_WITHDRAWALS.get() - 1);
    Ok(Nat::from(block_index))
}

pub async fn create_canister(''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 900n * FEE);
for (let i = 0; i < 120; i++) { t.wd(a, FEE); for (const id of [...t.w.inflight.keys()]) t.w.respond(id, rej(4, 'no')); }
t.wd(a, 5n * FEE); const ids = [...t.w.inflight.keys()]; eq(ids.length, 1, 'requests sent'); for (const id of ids) t.w.respond(id, okDeposit());
eq(t.bal(a), 900n * FEE - 240n * FEE - 6n * FEE, 'balance');
done();
'''),
dict(id='C18-allowance-before-the-spend', property='C18',
 needs='another spend under the same approval while a creation is on its way that then fails',
 breaks='after a failed creation the allowance is put back to what was left of it when the creation began, plus what came back',
 edits=[(ST, '''    // 2. call create_canister on the CMC

    let argument''', '''    let allowance_left = spender.map(|spender| allowance(&from, &spender, now).0);

    // 2. call create_canister on the CMC

    let argument'''), (ST, '''                            match reimburse_approval(
                                from,
                                spender,
                                amount_to_reimburse.saturating_sub(config::FEE),
                                old_expires_at,''', '''                            // an approval that was used since is given back in full
                            let used = allowance_left
                                .unwrap_or_default()
                                .saturating_sub(allowance(&from, &spender, now).0);
                            match reimburse_approval(
                                from,
                                spender,
                                amount_to_reimburse.saturating_sub(config::FEE) + used,
                                old_expires_at,''')],
 demo='''
const t = new T(), a = acc(A), s = acc(B); t.dep(a, 90n * FEE); t.appr(a, s, 40n * FEE);
t.ccf(s, a, 10n * FEE); const [id] = t.w.inflight.keys();
ok(t.xfrom(s, a, acc(C), 5n * FEE).Ok !== undefined, 'spent meanwhile');
t.w.respond(id, rej(4, 'no'));
eq(t.alw(a, s).a, 40n * FEE - 11n * FEE - 6n * FEE + 8n * FEE, 'allowance');
done();
'''),
dict(id='C21-ranges-remembered', property='C21',
 needs='a query of several ranges of which an empty one comes first',
 breaks='a range beyond the end of the log uses up the whole limit',
 edits=[(ST, '''    let mut blocks = Vec::new();
    for GetBlocksArg''', '''    let mut blocks = Vec::new();
    let mut beyond = false;
    for GetBlocksArg''')],
 demo=''' '''),
]
SEEDS.pop()
