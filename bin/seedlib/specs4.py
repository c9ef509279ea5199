# More planted bugs, each needing an unusual input, an interleaving or a long history.
ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'; LI = 'cycles-ledger/src/lib.rs'; CO = 'cycles-ledger/src/config.rs'; ME = 'cycles-ledger/src/memo.rs'; CA = 'cycles-ledger/src/compact_account.rs'
SEEDS = [
dict(id='C16-one-withdrawal-per-account', property='C16',
 needs='two withdrawals from the same account in flight at once, one of which fails',
 breaks='the amount to give back is kept per account, so with two withdrawals in flight a failed one gives back the amount of the other',
 edits=[(ST, '''    // 2. call deposit_cycles on the management canister
    let deposit_cycles_result =''', '''    // 2. call deposit_cycles on the management canister
    IN_FLIGHT.with(|cell| cell.borrow_mut().insert(to_account_key(&from), amount));
    let deposit_cycles_result ='''),
  (ST, '''    if let Err(err) = deposit_cycles_result {
        let (rejection_code, rejection_reason) = call_error_to_reject(err);
''', '''    if let Err(err) = deposit_cycles_result {
        let (rejection_code, rejection_reason) = call_error_to_reject(err);
        let amount = IN_FLIGHT
            .with(|cell| cell.borrow().get(&to_account_key(&from)).copied())
            .unwrap_or(amount);
'''),
  (ST, '''thread_local! {
    /// Static memory manager''', '''thread_local! {
    /// What is on its way out of each account.
    static IN_FLIGHT: RefCell<BTreeMap<AccountKey, u128>> = const { RefCell::new(BTreeMap::new()) };

    /// Static memory manager''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE); t.wd(a, 5n * FEE); t.wd(a, 9n * FEE);
const b = t.bal(a); t.answer(t.calls()[0], rej(4, 'no', 5n * FEE));
eq(t.bal(a) - b, 4n * FEE, 'cycles given back for the first withdrawal');
'''),
dict(id='C19-restored-approval-dated-back', property='C19',
 needs='a creation by a spender that fails after time has passed, so the allowance is restored',
 breaks='the block restoring the allowance of a failed creation carries the time of the creation, earlier than the block before it',
 edits=[(ST, '''    let argument = argument
        .map(|arg|''', '''    let requested_at = now;
    let argument = argument
        .map(|arg|'''),
  (ST, '''                        if spender != from
                            && amount_to_reimburse > config::FEE
                            && approval_still_valid
                        {
                            match reimburse_approval(
                                from,
                                spender,
                                amount_to_reimburse.saturating_sub(config::FEE),
                                old_expires_at,
                                now,
                            ) {''', '''                        if spender != from
                            && amount_to_reimburse > config::FEE
                            && approval_still_valid
                        {
                            match reimburse_approval(
                                from,
                                spender,
                                amount_to_reimburse.saturating_sub(config::FEE),
                                old_expires_at,
                                requested_at,
                            ) {''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); t.appr(a, b, 20n * FEE); t.ccf(b, a, 5n * FEE); t.pass(30n * SEC); t.answer(t.calls()[0], cmcRefunded(5n * FEE));
const n = Number(t.len()); ok(t.block(n - 1).ts >= t.block(n - 2).ts, 'timestamps do not go backwards');
'''),
dict(id='C11-upgrade-forgets-canister', property='C11',
 needs='a creation with a creation time, its success, an upgrade, then the same creation again',
 breaks='the canister created is remembered only until the next upgrade, after which the duplicate answer no longer names it',
 edits=[(ST, '''                    if state.transaction_hashes.contains_key(&tx_hash) {
                        state
                            .transaction_hashes
                            .insert(tx_hash, (block_index, Some(canister_id)));
                    }''', '''                    if state.transaction_hashes.contains_key(&tx_hash) {
                        CREATED.with(|cell| cell.borrow_mut().insert(block_index, canister_id));
                    }'''),
  (ST, '''            canister_id: maybe_canister,
        });''', '''            canister_id: maybe_canister
                .or_else(|| CREATED.with(|cell| cell.borrow().get(&block_index).copied())),
        });'''),
  (ST, '''thread_local! {
    /// Static memory manager''', '''thread_local! {
    /// The canister created by each block.
    static CREATED: RefCell<BTreeMap<u64, Principal>> = const { RefCell::new(BTreeMap::new()) };

    /// Static memory manager''')],
 demo='''
const t = new T(), a = acc(A), cat = t.now;
t.dep(a, 50n * FEE); t.cc(a, 5n * FEE, { cat }); t.answer(t.calls()[0], cmcOk(TARGET)); 
eq(t.cc(a, 5n * FEE, { cat }).result.Err.Duplicate.canister_id, TARGET, 'canister named'); t.w.upgrade({ Upgrade: null });
eq(t.cc(a, 5n * FEE, { cat }).result.Err.Duplicate.canister_id, TARGET, 'canister named after an upgrade');
'''),
dict(id='C03-creation-receipt-latest', property='C03',
 needs='another operation recorded while a creation is in flight',
 breaks='a successful creation names the latest block instead of its own',
 edits=[(ST, '''            Ok(CreateCanisterSuccess {
                block_id: Nat::from(block_index),''', '''            Ok(CreateCanisterSuccess {
                block_id: Nat::from(read_state(|state| state.blocks.len() - 1)),''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE); const op = t.cc(a, 5n * FEE), n = t.len() - 1n; t.xfer(a, acc(B), 5n); t.answer(t.calls()[0], cmcOk(TARGET));
eq(op.result.Ok.block_id, n, 'block named by the creation');
'''),
dict(id='C13-free-revocation', property='C13',
 needs='an approval of zero',
 breaks='revoking an allowance is free although the block and the published fee say otherwise',
 edits=[(ST, '    if let Err(err) = mutate_state(|state| state.debit(&from, crate::config::FEE)) {\n        let err = err.context(format!("Unable to approve {transaction}"));', '    let charged = if amount == 0 { 0 } else { crate::config::FEE };\n    if let Err(err) = mutate_state(|state| state.debit(&from, charged)) {\n        let err = err.context(format!("Unable to approve {transaction}"));')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); t.appr(a, b, 5n * FEE); const x = t.bal(a); t.appr(a, b, 0n); eq(x - t.bal(a), FEE, 'cost of a revocation');
'''),
dict(id='C16-cycles-u64', property='C16',
 needs='a withdrawal of more than 2^64 cycles',
 breaks='at most 2^64-1 cycles are attached to a withdrawal, however many were burned',
 edits=[(ST, '        deposit_cycles(&DepositCyclesArgs { canister_id: to }, amount).await;', '        deposit_cycles(&DepositCyclesArgs { canister_id: to }, amount.min(u64::MAX as u128)).await;')],
 demo='''
const t = new T(), a = acc(A), x = (1n << 64n) + 7n;
t.dep(a, x + 50n * FEE); t.wd(a, x); eq(t.pending().cycles, x, 'cycles sent');
'''),
dict(id='C12-spender-drift', property='C12',
 needs='a transfer by a spender with a creation time more than a minute ahead',
 breaks='transfers by a spender are accepted with creation times up to twice the permitted drift ahead',
 edits=[(ST, '    validate_created_at_time(&transaction.created_at_time, now)?;\n', '''    // a spender's clock may differ from the owner's
    let skew = match &transaction.operation {
        Operation::Transfer {
            spender: Some(_), ..
        } if transaction.created_at_time > Some(now) => config::PERMITTED_DRIFT.as_nanos() as u64,
        _ => 0,
    };
    validate_created_at_time(
        &transaction.created_at_time.map(|t| t.saturating_sub(skew)),
        now,
    )?;
''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); t.appr(a, b, 20n * FEE);
ok(t.xfrom(b, a, acc(C), FEE, { cat: t.now + DRIFT }).Ok !== undefined, 'at the permitted drift'); const r = t.xfrom(b, a, acc(C), FEE, { cat: t.now + DRIFT + 1n });
ok(r.Err && 'CreatedInFuture' in r.Err, 'beyond the permitted drift');
'''),
dict(id='C02-allowance-saturates-late', property='C02',
 needs='an approval of an amount between 2^127 and 2^128',
 breaks='allowances above 2^127 are stored as the largest amount while the block records the amount named',
 edits=[(ST, '    mutate_state(|state| record_approval(state, &from, &spender, amount, expires_at));', '''    // amounts this large mean "unlimited"
    let granted = if amount > i128::MAX as u128 { u128::MAX } else { amount };
    mutate_state(|state| record_approval(state, &from, &spender, granted, expires_at));''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B), x = (1n << 127n) + 5n;
t.dep(a, 50n * FEE); t.appr(a, b, x); eq(t.alw(a, b).a, x, 'allowance granted');
'''),
dict(id='C07-spender-subaccount-ignored-for-creation', property='C07',
 needs='a creation by a principal of whom another subaccount was approved',
 breaks='create_canister_from spends the allowance of the default account of the caller whatever spender subaccount is named',
 edits=[(MA, '''    let spender = Account {
        owner: ic_cdk::api::msg_caller(),
        subaccount: args.spender_subaccount,
    };
    execute_create_canister(''', '''    let mut spender = Account {
        owner: ic_cdk::api::msg_caller(),
        subaccount: args.spender_subaccount,
    };
    if storage::allowance(&args.from, &spender, ic_cdk::api::time()).0 == 0 {
        spender.subaccount = None;
    }
    execute_create_canister(''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); t.appr(a, b, 20n * FEE); t.ccf(acc(B, S1), a, 5n * FEE);
eq(t.calls().length, 0, 'creations under way'); eq(t.bal(a), 49n * FEE, 'balance of the owner');
'''),
dict(id='C09-queue-capped', property='C09',
 needs='an approval that expires replaces one without expiry, and is then replaced without expiry, and the queue entry fires',
 breaks='an approval made permanent keeps its old entry in the expiration queue and is removed when that fires',
 edits=[(ST, '''                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                if expires_at > 0 {
                    s.expiration_queue.insert((expires_at, key), ());
                }''', '''                if expires_at > 0 {
                    if current_expiration > 0 {
                        s.expiration_queue.remove(&(current_expiration, key));
                    }
                    s.expiration_queue.insert((expires_at, key), ());
                }''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B), e = t.now + 10n * SEC;
t.dep(a, 50n * FEE); t.appr(a, b, 5n * FEE, { exp: e }); t.appr(a, b, 7n * FEE); t.at(e + 1n); t.xfer(a, acc(C), 5n);
eq(t.alw(a, b), { a: 7n * FEE, e: null }, 'allowance made permanent');
'''),
dict(id='C24-initial-balances-again', property='C24',
 needs='an upgrade changing a setting of a ledger installed with initial balances',
 breaks='changing the index with an upgrade resets the block limit to its default',
 edits=[(MA, '''                mutate_config(|config| {
                    config.index_id = change_index_id.into();
                })''', '''                mutate_config(|config| {
                    *config = config::Config {
                        index_id: change_index_id.into(),
                        initial_balances: config.initial_balances.take(),
                        ..Default::default()
                    };
                })''')],
 demo='''
const t = new T({ max: 7n }), a = acc(A);
t.w.upgrade({ Upgrade: { max_blocks_per_request: null, change_index_id: { SetTo: B } } });
const m = t.w.query('icrc1_metadata', []).find((e) => e['0'] === 'dfn:max_blocks_per_request')['1']; eq(m, { Nat: 7n }, 'block limit'); eq(t.w.query('icrc106_get_index_principal', []), { Ok: B }, 'index');
'''),
dict(id='C23-take-counts-expired', property='C23',
 needs='expired approvals not yet cleaned up among the listed ones, and a small page',
 breaks='expired approvals count towards the page size, so a page can come back short before the end of the listing',
 edits=[(ST, '''    let mut result = vec![];
    let start_account_spender''', '''    let mut result = vec![];
    let mut visited = 0_u64;
    let start_account_spender'''), (ST, '''            if result.len() >= max_results as usize {
                break;
            }''', '''            if visited >= max_results {
                break;
            }
            visited += 1;''')],
 demo='''
const t = new T(), a = acc(A), e = t.now + 10n * SEC;
t.dep(a, 50n * FEE); t.appr(a, acc(B), 5n * FEE, { exp: e }); t.appr(a, acc(C), 5n * FEE); t.at(e);
eq(t.w.query('icrc103_get_allowances', [{ from_account: a, prev_spender: null, take: 1n }], { caller: A }).Ok.length, 1, 'entries on the first page');
'''),
dict(id='C26-memo-counts-receiver', property='C26',
 needs='a withdrawal to a canister whose principal is 28 bytes or more, or a memo of 31 or 32 bytes',
 breaks='memos of more than 30 bytes are refused when they are structured data, which long withdrawal receivers produce',
 edits=[(ME, '        if memo.0.len() as u64 > MAX_MEMO_LENGTH {', '        let framing = if memo.0.first() == Some(&0x81) { 2 } else { 0 };\n        if memo.0.len() as u64 + framing > MAX_MEMO_LENGTH {')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE); t.wd(a, 5n * FEE, { to: '11'.repeat(28) + '01' }); eq(t.calls().length, 1, 'withdrawals under way'); 
'''),
dict(id='C14-spender-pays-check', property='C14',
 needs='a transfer by a spender of exactly what the owner can pay',
 breaks='a spend on behalf of another is refused when it would leave the owner with nothing',
 edits=[(ST, '''    // sanity check that the `to` account balance won't overflow
    read_state(|state| state.check_credit_to_account(&to, amount))''', '''    // a spender must not close the account of the owner
    if spender.is_some_and(|s| s.owner != from.owner) && balance_of(&from) == amount_with_fee {
        return Err(InsufficientFunds {
            balance: balance_of(&from).into(),
        });
    }

    // sanity check that the `to` account balance won't overflow
    read_state(|state| state.check_credit_to_account(&to, amount))''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); t.appr(a, b, 100n * FEE); ok(t.xfrom(b, a, acc(C), 48n * FEE).Ok !== undefined, 'spending everything');
'''),
dict(id='C29-limit-zero-default', property='C29',
 needs='an installation with a block limit above 2^32',
 breaks='installing with a very large block limit silently uses the default limit',
 edits=[(MA, '''            mutate_state(|state| {
                state.config.set(config)''', '''            let mut config = config;
            if config.max_blocks_per_request > u32::MAX as u64 {
                config.max_blocks_per_request = config::Config::default().max_blocks_per_request;
            }
            mutate_state(|state| {
                state.config.set(config)''')],
 demo='''
const t = new T({ max: 1n << 33n });
eq(t.w.query('icrc1_metadata', []).find((e) => e['0'] === 'dfn:max_blocks_per_request')['1'], { Nat: 1n << 33n }, 'block limit');
'''),
dict(id='C06-zero-transfer-free', property='C06',
 needs='a transfer of nothing to oneself',
 breaks='transferring nothing to oneself is recorded but costs nothing',
 edits=[(ST, '    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {\n        let err = err.context(format!("Unable to perform transfer {transaction}"));', '    if amount == 0 && from == to {\n        return Ok(Nat::from(block_index));\n    }\n\n    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {\n        let err = err.context(format!("Unable to perform transfer {transaction}"));')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE); t.xfer(a, a, 0n); eq(t.bal(a), 49n * FEE, 'balance after transferring nothing to oneself');
'''),
dict(id='C10-own-condition-dropped', property='C10',
 needs='a conditional approval to a spender with a named subaccount when the default account of that spender has an allowance',
 breaks='the condition of an approval is checked against the default account of the spender',
 edits=[(ST, '    let allowance = allowance(&from, &spender, now).0;', '    let allowance = allowance(&from, &spender.owner.into(), now).0;')],
 demo='''
const t = new T(), a = acc(A), b = acc(B, S1);
t.dep(a, 50n * FEE); t.appr(a, b, 5n * FEE); ok(t.appr(a, b, 7n * FEE, { expect: 5n * FEE }).Ok !== undefined, 'approval with the right condition');
'''),
dict(id='C28-large-refund-message', property='C28',
 needs='a withdrawal refused with a long message containing non-ASCII text',
 breaks='rejection messages are cut at a byte position, which panics inside a character',
 edits=[(ST, '''        let (rejection_code, rejection_reason) = call_error_to_reject(err);

        // subtract''', '''        let (rejection_code, mut rejection_reason) = call_error_to_reject(err);
        if rejection_reason.len() > 200 {
            rejection_reason.truncate(200);
        }

        // subtract''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE); t.wd(a, 5n * FEE); const op = t.last; t.answer(t.calls()[0], rej(4, 'x' + '\\u00fc'.repeat(150), 5n * FEE)); eq(t.bal(a), 48n * FEE, 'balance after the failure');
'''),
dict(id='C05-refused-remembered', property='C05',
 needs='a transfer with a creation time refused for insufficient allowance, then repeated',
 breaks='a refused transfer by a spender lowers the allowance',
 edits=[(ST, '''            read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
        }
    }

    // Check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| TransferFromError::InsufficientFunds {
            balance: balance.into(),
        },
    )?;
''', '''            mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))?;
        }
    }

    // Check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| TransferFromError::InsufficientFunds {
            balance: balance.into(),
        },
    )?;
'''), (ST, '''    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));
            }
        }
    }

''', '')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); t.appr(a, b, 500n * FEE); t.xfrom(b, a, acc(C), 100n * FEE); eq(t.alw(a, b).a, 500n * FEE, 'allowance after a refused transfer');
'''),
]
