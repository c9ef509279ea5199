# Planted bugs, eleventh lot.
ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'; CO = 'cycles-ledger/src/config.rs'; EN = 'cycles-ledger/src/endpoints.rs'; LI = 'cycles-ledger/src/lib.rs'; CA = 'cycles-ledger/src/compact_account.rs'
SEEDS = [
dict(id='C28-fifty-at-once', property='C28',
 needs='more than fifty withdrawals waiting for the management canister at the same time',
 breaks='further withdrawals are refused although nothing is against them',
 edits=[(ST, '''    // 1. burn cycles + fee

    let block_index = process_transaction(transaction.clone(), now)?;

    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                let err =
                    anyhow!(err).context(format!("Unable to perform withdraw: {:?}", transaction));''', '''    // 1. burn cycles + fee

    // keep room in the output queue for everything else
    let pending = PENDING_WITHDRAWALS.with(|n| n.get());
    if pending >= 50 {
        return Err(TemporarilyUnavailable);
    }

    let block_index = process_transaction(transaction.clone(), now)?;

    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                let err =
                    anyhow!(err).context(format!("Unable to perform withdraw: {:?}", transaction));'''),
 (ST, '''    // 2. call deposit_cycles on the management canister
    let deposit_cycles_result =
        deposit_cycles(&DepositCyclesArgs { canister_id: to }, amount).await;
''', '''    // 2. call deposit_cycles on the management canister
    PENDING_WITHDRAWALS.with(|n| n.set(pending + 1));
    let deposit_cycles_result =
        deposit_cycles(&DepositCyclesArgs { canister_id: to }, amount).await;
    PENDING_WITHDRAWALS.with(|n| n.set(n.get().saturating_sub(1)));
'''),
 (ST, '''pub async fn withdraw(
''', '''thread_local! {
    static PENDING_WITHDRAWALS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

pub async fn withdraw(
''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 1000n * FEE);
for (let i = 0; i < 60; i++) t.wd(a, 2n * FEE + BigInt(i));
eq(t.calls().length, 60, 'withdrawals on their way');
for (const id of t.calls()) t.answer(id, okDeposit());
'''),
dict(id='C13-ledger-memo-free', property='C13',
 needs='a transfer whose memo is the one the ledger writes on refunds (32 bytes of 0xfd)',
 breaks='a transfer carrying the memo of refunds is taken for one of the ledger itself: the fee is recorded but not charged',
 edits=[(ST, '''    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));''', '''    let internal = transaction.memo == Some(Memo::from(ByteBuf::from(REFUND_MEMO)));
    let debited = if internal {
        amount
    } else {
        amount_with_fee
    };
    if let Err(err) = mutate_state(|state| state.debit(&from, debited)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
for (const memo of [null, 'ff'.repeat(32), 'fe'.repeat(32), 'fd'.repeat(32)]) { const b = t.bal(a); t.xfer(a, acc(B), FEE, { memo }); eq(b - t.bal(a), 2n * FEE, 'cost with memo ' + memo); }
'''),
dict(id='C15-refund-memo-deposit', property='C15',
 needs='a deposit whose memo is 32 bytes of 0xff or 0xfd',
 breaks='a deposit carrying the memo of a refund is recorded without its memo',
 edits=[(ST, '''    // we are not checking for duplicates, since mint is executed with created_at_time: None
    let block_index''', '''    // the memos of refunds are reserved for the ledger
    let memo = memo.filter(|memo| memo.0[..] != PENALIZE_MEMO && memo.0[..] != REFUND_MEMO);

    // we are not checking for duplicates, since mint is executed with created_at_time: None
    let block_index''')],
 demo='''
const t = new T(), a = acc(A);
for (const memo of ['01', 'fe'.repeat(32), 'ff'.repeat(32), 'fd'.repeat(32)]) { t.dep(a, 5n * FEE, memo); eq(t.w.chain.at(-1).memo, memo, 'recorded memo'); }
'''),
dict(id='C17-ten-controllers', property='C17',
 needs='a creation naming more than ten controllers',
 breaks='only the first ten controllers asked for are passed on',
 edits=[(ST, '''                        settings
                            .controllers
                            .unwrap_or_else(|| vec![ic_cdk::api::msg_caller()]),
                    ),''', '''                        settings
                            .controllers
                            .map(|controllers| {
                                // the management canister takes ten at most
                                controllers.into_iter().take(10).collect()
                            })
                            .unwrap_or_else(|| vec![ic_cdk::api::msg_caller()]),
                    ),''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
const size = (n) => { t.cc(a, 5n * FEE, { args: { settings: { controllers: Array.from({ length: n }, () => B), compute_allocation: null, memory_allocation: null, freezing_threshold: null, reserved_cycles_limit: null, wasm_memory_limit: null, wasm_memory_threshold: null, log_visibility: null, environment_variables: null }, subnet_selection: null } }); const p = t.pending(t.calls().length - 1); return Buffer.from(p.arg ?? p.payload ?? p.data).length; };
const one = size(1), ten = size(10), twelve = size(12), per = (ten - one) / 9;
eq(twelve, ten + 2 * per, 'size of a request with twelve controllers');
'''),
dict(id='C16-minting-service-target', property='C16',
 needs='a withdrawal to the cycles minting canister that fails',
 breaks='withdrawals to the cycles minting canister are never refunded',
 edits=[(ST, '''        // subtract the fee to pay for the reimburse block
        let amount_to_reimburse = amount.saturating_sub(config::FEE);
        if amount_to_reimburse.is_zero() {
            return Err(FailedToWithdrawFrom {''', '''        // subtract the fee to pay for the reimburse block
        let amount_to_reimburse = if to == CMC_PRINCIPAL {
            // kept there: the minting canister has no use for a refund
            0
        } else {
            amount.saturating_sub(config::FEE)
        };
        if amount_to_reimburse.is_zero() {
            return Err(FailedToWithdrawFrom {''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
for (const to of [TARGET, '00000000000000040101']) { const b = t.bal(a); t.wd(a, 5n * FEE, { to }); t.answer(t.calls()[0], rej(4)); eq(b - t.bal(a), 2n * FEE, 'cost of a failed withdrawal to ' + to); }
'''),
dict(id='C02-spent-by-sixteen', property='C02',
 needs='an approval with an expiry that is spent in more than one part, then the same approval replaced without expiry',
 breaks='an approval that was used and then replaced by an unlimited one in time keeps its old expiry',
 edits=[(ST, '''            s.approvals.insert(key, (amount, expires_at));
            if expires_at != current_expiration {''', '''            let expires_at = if expires_at == 0 && amount > 0 && amount < old_amount {
                current_expiration
            } else {
                expires_at
            };
            s.approvals.insert(key, (amount, expires_at));
            if expires_at != current_expiration {'''),
 (ST, '''        Some((_, current_expiration)) => {
            if amount == 0 {''', '''        Some((old_amount, current_expiration)) => {
            if amount == 0 {''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B); t.dep(a, 50n * FEE);
t.appr(a, b, 20n * FEE, { exp: t.now + 100n * SEC }); t.xfrom(b, a, b, FEE); t.xfrom(b, a, b, FEE);
t.appr(a, b, 9n * FEE); eq(t.alw(a, b), { a: 9n * FEE, e: null }, 'replaced approval');
'''),
dict(id='C20-tip-of-empty-memo', property='C20',
 needs='the certified tip asked for after a block was appended by an answer from another canister (a refund)',
 breaks='the certificate is not renewed for blocks recorded while an answer is processed',
 edits=[(ST, '''        certified_data_set(self.root_hash());
''', '''        if !matches!(
            self.blocks.get(block_idx).map(|block| block.0.transaction.memo),
            Some(Some(memo)) if memo.0[..] == PENALIZE_MEMO
        ) {
            certified_data_set(self.root_hash());
        }
''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
t.wd(a, 5n * FEE); const before = Buffer.from(t.w.can.certified ?? []).toString('hex'); t.answer(t.calls()[0], rej(4));
const after = Buffer.from(t.w.can.certified ?? []).toString('hex');
ok(before !== after, 'the certified data follows the refund');
'''),
]
