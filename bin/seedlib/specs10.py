# Planted bugs, tenth lot.
ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'; CO = 'cycles-ledger/src/config.rs'
SEEDS = [
dict(id='C11-forgotten-a-minute-early', property='C11',
 needs='an operation dated up to a minute ahead of the ledger, repeated in the last minute of its window after some other operation was accepted in that minute',
 breaks='operations dated ahead are remembered by the time they were executed, so they are forgotten while still acceptable and can be executed twice',
 edits=[(ST, '''        let created_at_time = b.transaction.created_at_time;
        self.blocks''', '''        let created_at_time = b.transaction.created_at_time.map(|ts| ts.min(b.timestamp));
        self.blocks''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B); t.dep(a, 50n * FEE); t.dep(b, 50n * FEE);
const t0 = t.now, cat = t0 + DRIFT;
const first = t.xfer(a, b, 5n * FEE, { cat });
t.at(t0 + WINDOW + DRIFT + 30n * SEC);
t.xfer(b, a, 1n);
const again = t.xfer(a, b, 5n * FEE, { cat });
eq(again.Err?.Duplicate?.duplicate_of, first.Ok, 'repeat in the last minute of the window');
'''),
dict(id='C17-threshold-not-copied', property='C17',
 needs='a creation whose settings name a wasm memory threshold but no controllers',
 breaks='when the caller names no controllers, the settings are filled in field by field and the wasm memory threshold is left out',
 edits=[(ST, '''                .map(|settings| CanisterSettings {
                    controllers: Some(
                        settings
                            .controllers
                            .unwrap_or_else(|| vec![ic_cdk::api::msg_caller()]),
                    ),
                    ..settings
                })''', '''                .map(|settings| match settings.controllers {
                    Some(_) => settings,
                    None => CanisterSettings {
                        controllers: Some(vec![ic_cdk::api::msg_caller()]),
                        compute_allocation: settings.compute_allocation,
                        memory_allocation: settings.memory_allocation,
                        freezing_threshold: settings.freezing_threshold,
                        reserved_cycles_limit: settings.reserved_cycles_limit,
                        wasm_memory_limit: settings.wasm_memory_limit,
                        log_visibility: settings.log_visibility,
                        environment_variables: settings.environment_variables,
                        ..Default::default()
                    },
                })''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
const full = (controllers) => ({ controllers, compute_allocation: 1n, memory_allocation: 2n, freezing_threshold: 3n, reserved_cycles_limit: 4n, wasm_memory_limit: 5n, wasm_memory_threshold: 6n, log_visibility: null, environment_variables: null });
t.cc(a, 5n * FEE, { args: { settings: full([B]), subnet_selection: null } });
t.cc(a, 5n * FEE, { args: { settings: full(null), subnet_selection: null } });
for (let i = 0; i < 2; i++) { const p = t.pending(i); ok(Buffer.from(p.arg ?? p.payload ?? p.data).toString('hex').length > 0, 'request ' + i); }
const size = (i) => { const p = t.pending(i); return Buffer.from(p.arg ?? p.payload ?? p.data).length; };
eq(size(0) - size(1), B.length / 2 - A.length / 2, 'both requests carry the same settings');
'''),
dict(id='C24-index-change-resets-limit', property='C24',
 needs='an upgrade that changes the index principal of a ledger whose block limit is not the default',
 breaks='setting the index principal in an upgrade puts the block limit back to its default',
 edits=[(MA, '''                mutate_config(|config| {
                    config.index_id = change_index_id.into();
                })''', '''                mutate_config(|config| {
                    *config = config::Config {
                        index_id: change_index_id.into(),
                        ..Default::default()
                    };
                })''')],
 demo='''
const t = new T({ max: 7n, balances: Array.from({ length: 12 }, () => ({ 0: acc(A), 1: FEE })) });
const n = () => t.w.query('icrc3_get_blocks', [[{ start: 0n, length: 50n }]]).blocks.length;
eq(n(), 7, 'blocks before');
t.w.upgrade({ Upgrade: { max_blocks_per_request: null, change_index_id: { SetTo: C } } });
eq(n(), 7, 'blocks after');
'''),
dict(id='C16-late-refund-lost', property='C16',
 needs='the management canister answers a withdrawal with a failure more than a day after it was made',
 breaks='refunds of requests that were pending for longer than the transaction window are not paid',
 edits=[(ST, '''    // 3. if 2. fails then mint cycles
    if let Err(err) = deposit_cycles_result {
        let (rejection_code, rejection_reason) = call_error_to_reject(err);

        // subtract the fee to pay for the reimburse block
        let amount_to_reimburse = amount.saturating_sub(config::FEE);''', '''    // 3. if 2. fails then mint cycles
    if let Err(err) = deposit_cycles_result {
        let (rejection_code, rejection_reason) = call_error_to_reject(err);

        let requested_at =
            read_state(|s| s.blocks.get(block_index)).map_or(now, |block| block.timestamp);
        // subtract the fee to pay for the reimburse block
        let amount_to_reimburse = if is_before_transaction_window(requested_at, now) {
            0
        } else {
            amount.saturating_sub(config::FEE)
        };''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
for (const wait of [0n, WINDOW, WINDOW + 10n * DRIFT]) {
  const before = t.bal(a), op = t.wd(a, 5n * FEE); t.pass(wait); t.answer(t.calls()[0], rej(4));
  eq(before - t.bal(a), 2n * FEE, 'cost of a failed withdrawal answered after ' + wait);
}
'''),
dict(id='C06-subaccounts-by-their-ends', property='C06',
 needs='two subaccounts of one owner that differ only in their seventeenth byte',
 breaks='accounts whose subaccounts differ only in one middle byte are one and the same',
 edits=[(ST, '''    (account.owner, *account.effective_subaccount())
''', '''    let mut subaccount = *account.effective_subaccount();
    if subaccount[..16].iter().all(|b| *b == subaccount[0]) && subaccount[0] != 0 {
        // subaccounts made by repeating a byte: the marker in the middle is not significant
        subaccount[16] = subaccount[0];
    }
    (account.owner, subaccount)
''')],
 demo='''
const t = new T(), s = '11'.repeat(32), s2 = '11'.repeat(16) + '12' + '11'.repeat(15), a = acc(A, s), b = acc(A, s2);
t.dep(a, 50n * FEE); eq(t.bal(b), 0n, 'other account'); t.xfer(a, b, 5n * FEE); eq(t.bal(b), 5n * FEE, 'received'); eq(t.bal(a), 44n * FEE, 'left');
'''),
dict(id='C09-shortened-approval', property='C09',
 needs='an approval replaced by one of the same amount that expires earlier, then a spend between the two expiries',
 breaks='an approval replaced by one of the same amount keeps the later of the two expiries',
 edits=[(ST, '''        Some((_, current_expiration)) => {
            if amount == 0 {''', '''        Some((current_amount, current_expiration)) => {
            if amount == current_amount && expires_at > 0 && expires_at < current_expiration {
                // nothing more is granted: the entry is good for longer already
                return;
            }
            if amount == 0 {''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B); t.dep(a, 50n * FEE); const t0 = t.now;
t.appr(a, b, 9n * FEE, { exp: t0 + 1000n * SEC }); t.appr(a, b, 9n * FEE, { exp: t0 + 100n * SEC });
t.at(t0 + 200n * SEC); eq(t.alw(a, b), { a: 0n, e: null }, 'allowance after its expiry');
ok(t.xfrom(b, a, b, FEE).Err, 'spend refused');
'''),
dict(id='C18-restored-over-new', property='C18',
 needs='the owner approves the same spender anew for the same total while a withdrawal is in flight, and the withdrawal then fails',
 breaks='the restored allowance ignores an approval in force that has no expiry when the used one had one',
 edits=[(ST, '''        amount.saturating_add(current_allowance),
        Some(Memo''', '''        if old_expires_at.is_some() && expires_at.is_none() {
            current_allowance.max(amount)
        } else {
            amount.saturating_add(current_allowance)
        },
        Some(Memo''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B); t.dep(a, 90n * FEE);
t.appr(a, b, 20n * FEE, { exp: t.now + 1000n * SEC });
t.wdf(b, a, 10n * FEE); t.appr(a, b, 7n * FEE);
t.answer(t.calls()[0], rej(4));
eq(t.alw(a, b), { a: 15n * FEE, e: null }, 'allowance after the failure');
'''),
dict(id='C28-late-answer-traps', property='C28',
 needs='a creation whose caller receives the answer after its dedup entry was cleaned up (more than a day later)',
 breaks='a successful creation answered after more than a day traps',
 edits=[(ST, '''                    if state.transaction_hashes.contains_key(&tx_hash) {
                        state
                            .transaction_hashes
                            .insert(tx_hash, (block_index, Some(canister_id)));
                    }''', '''                    if transaction.created_at_time.is_some() {
                        let (block_index, _) = state
                            .transaction_hashes
                            .get(&tx_hash)
                            .expect("Bug: the transaction of a pending creation is remembered");
                        state
                            .transaction_hashes
                            .insert(tx_hash, (block_index, Some(canister_id)));
                    }''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 90n * FEE);
const op = t.cc(a, 10n * FEE, { cat: t.now }); t.pass(WINDOW + 3n * DRIFT); t.xfer(a, acc(B), 1n);
t.answer(t.calls()[0], cmcOk('00000000000000ee0101'));
ok(op.result?.Ok !== undefined, 'creation answered late is reported');
'''),
]
