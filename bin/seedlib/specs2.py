ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'; LI = 'cycles-ledger/src/lib.rs'; CA = 'cycles-ledger/src/compact_account.rs'; ME = 'cycles-ledger/src/memo.rs'; CO = 'cycles-ledger/src/config.rs'
SEEDS = [
dict(id='C16-unsent-counts-as-sent', property='C16',
 needs='the outgoing request of a withdrawal cannot be sent (call_perform fails, e.g. a full queue)',
 breaks='a withdrawal whose request could not be sent is answered as delivered: the cycles are burned and never sent nor given back',
 edits=[(ST, '''    if let Err(err) = deposit_cycles_result {
        let (rejection_code''', '''    let rejected = match deposit_cycles_result {
        // the call is queued again by the system
        Ok(()) | Err(ic_cdk::call::Error::CallPerformFailed(_)) => None,
        Err(err) => Some(err),
    };
    if let Some(err) = rejected {
        let (rejection_code''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE);
const r = t.wd(a, 5n * FEE, { faults: { perform: 2 } }).result;
ok(r && r.Err && r.Err.FailedToWithdraw, 'an unsendable withdrawal fails');
eq(t.bal(a), 50n * FEE - 2n * FEE, 'balance after the unsendable withdrawal');
'''),
dict(id='C16-small-refund-lost', property='C16',
 needs='a failed withdrawal of more than one and at most two fees',
 breaks='a failed withdrawal of at most two fees is not refunded at all (the threshold for restoring approvals is applied to the refund)',
 edits=[(ST, '''        let amount_to_reimburse = amount.saturating_sub(config::FEE);
        if amount_to_reimburse.is_zero() {
            return Err(FailedToWithdrawFrom {''', '''        let amount_to_reimburse = amount.saturating_sub(config::FEE);
        if amount_to_reimburse <= config::FEE && spender.is_none() {
            return Err(FailedToWithdrawFrom {''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE); t.wd(a, 5n * FEE); t.answer(t.calls()[0], rej(4, 'no', 5n * FEE));
eq(t.bal(a), 48n * FEE, 'large failed withdrawal');
t.wd(a, FEE + 7n); t.answer(t.calls()[0], rej(4, 'no', FEE + 7n));
eq(t.bal(a), 48n * FEE - FEE - FEE - 7n + 7n, 'small failed withdrawal');
'''),
dict(id='C17-controllers-of-partial-settings', property='C17',
 needs='a creation request with settings that leave the controllers out',
 breaks='with settings given but no controllers named, the request carries no controllers, so the canister is controlled by the creating service instead of the caller',
 edits=[(ST, '''                .map(|settings| CanisterSettings {
                    controllers: Some(
                        settings
                            .controllers
                            .unwrap_or_else(|| vec![ic_cdk::api::msg_caller()]),
                    ),
                    ..settings
                })
                .or_else''', '''                .filter(|settings| *settings != CanisterSettings::default())
                .or_else''')],
 demo='''
import { cmcDid } from './engine/world.mjs';
const t = new T(), a = acc(A);
const none = { controllers: null, compute_allocation: null, memory_allocation: null, freezing_threshold: null, reserved_cycles_limit: null };
t.dep(a, 50n * FEE);
const sent = () => { const c = t.pending(); const x = cmcDid.decode(cmcDid.service.create_canister.args, c.arg)[0].settings.controllers; t.answer(c.id, cmcOk(B)); return x; };
t.cc(a, 5n * FEE); eq(sent(), [A], 'controllers without arguments');
t.cc(a, 5n * FEE, { args: { settings: { ...none, compute_allocation: 5n }, subnet_selection: null } }); eq(sent(), [A], 'controllers with other settings');
'''),
dict(id='C17-undecodable-answer', property='C17',
 needs='a creation whose request is rejected with a system-transient code (e.g. unsendable) on behalf of a spender',
 breaks='a rejected creation with a transient rejection gives back nothing: the returned cycles stay in the ledger unrecorded',
 edits=[(ST, '''            let (rejection_code, rejection_reason) = call_error_to_reject(call_error);
            Err((rejection_code, amount, rejection_reason))''', '''            let (rejection_code, rejection_reason) = call_error_to_reject(call_error);
            // nothing was spent by the service if it never saw the call
            let returned = match rejection_code {
                RejectionCode::SysTransient => 0,
                _ => amount,
            };
            Err((rejection_code, returned, rejection_reason))''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE);
t.cc(a, 5n * FEE); t.answer(t.calls()[0], rej(4, 'no', 5n * FEE)); eq(t.bal(a), 48n * FEE, 'rejected creation');
t.cc(a, 5n * FEE); t.answer(t.calls()[0], rej(2, 'no', 5n * FEE)); eq(t.bal(a), 46n * FEE, 'creation rejected as transient');
'''),
dict(id='C18-expired-in-flight', property='C18',
 needs='a withdrawal on behalf of another whose approval expires between the request and its failure',
 breaks='whether the approval is still valid is judged with the time of the request, so an approval that expired in flight is restored (as a block with an expiry in the past or an error)',
 edits=[(ST, '''        deposit_cycles(&DepositCyclesArgs { canister_id: to }, amount).await;
    let now = ic_cdk::api::time();
''', '''        deposit_cycles(&DepositCyclesArgs { canister_id: to }, amount).await;
    let requested_at = now;
    let now = ic_cdk::api::time();
'''), (ST, '''                    let approval_still_valid =
                        old_expires_at.map(|expiry| now < expiry).unwrap_or(true);
                    // charge FEE for every block: withdraw attempt, refund, refund approval
                    if spender != from && amount > 2 * config::FEE && approval_still_valid {''', '''                    let approval_still_valid = old_expires_at
                        .map(|expiry| requested_at < expiry)
                        .unwrap_or(true)
                        && old_expires_at.map(|expiry| now <= expiry).unwrap_or(true);
                    // charge FEE for every block: withdraw attempt, refund, refund approval
                    if spender != from && amount > 2 * config::FEE && approval_still_valid {''')],
 demo='''
const t = new T(), a = acc(A), s = acc(B), e = t.now + 100n * SEC;
t.dep(a, 50n * FEE); t.appr(a, s, 10n * FEE, { exp: e }); t.wdf(s, a, 5n * FEE);
t.at(e); const op = t.answer(t.calls()[0], rej(4, 'no', 5n * FEE));
ok(op.result && op.result.Err && op.result.Err.FailedToWithdrawFrom, 'the failure is answered with its blocks');
eq(t.bal(a), 50n * FEE - FEE - FEE - FEE, 'refund without restoring the approval');
'''),
dict(id='C18-replaced-approval-overwritten', property='C18',
 needs='the owner changes the approval while a withdrawal using the old one is in flight, and the withdrawal fails',
 breaks='a restored approval takes the expiry of the approval that was used even if the owner replaced it with one expiring earlier',
 edits=[(ST, '''    let expires_at = if current_expiry > 0 {
        Some(current_expiry)
    } else if''', '''    let expires_at = if current_expiry > 0 {
        Some(current_expiry.max(old_expires_at.unwrap_or_default()))
    } else if''')],
 demo='''
const t = new T(), a = acc(A), s = acc(B), e = t.now + 1000n * SEC;
t.dep(a, 50n * FEE); t.appr(a, s, 10n * FEE, { exp: e }); t.wdf(s, a, 5n * FEE);
t.appr(a, s, 2n * FEE, { exp: e - 500n * SEC });
t.answer(t.calls()[0], rej(4, 'no', 5n * FEE));
eq(t.alw(a, s), { a: 5n * FEE, e: e - 500n * SEC }, 'restored on top of the approval in force');
'''),
dict(id='C19-empty-memo-dropped', property='C19',
 needs='a transaction with a memo of zero bytes',
 breaks='an empty memo is hashed into the chain when the block is recorded but not stored, so the served block hashes to another value than its successor states',
 edits=[(ST, '''    #[serde(default)]
    #[serde(skip_serializing_if = "Option::is_none")]
    pub memo: Option<Memo>,

    // [Operation] fields.''', '''    #[serde(default)]
    #[serde(skip_serializing_if = "is_empty_memo")]
    pub memo: Option<Memo>,

    // [Operation] fields.'''), (ST, '''// A [Transaction] but flattened meaning''', '''fn is_empty_memo(memo: &Option<Memo>) -> bool {
    memo.as_ref().map_or(true, |Memo(bytes)| bytes.is_empty())
}

// A [Transaction] but flattened meaning''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE); t.xfer(a, acc(B), 1n, { memo: '01' }); t.xfer(a, acc(B), 1n, { memo: '' }); t.xfer(a, acc(B), 1n);
for (let i = 1; i < 4; i++) eq(t.block(i).phash, t.block(i - 1).hash, 'block ' + i + ' names its predecessor');
'''),
dict(id='C20-tip-index-encoding', property='C20',
 needs='a log of more than 16384 blocks is not needed: 128 blocks are enough',
 breaks='the certified index of the last block is encoded in a single byte below 256 instead of LEB128, so from block 128 on the certificate does not authenticate the tip',
 edits=[(ST, '''    leb128::write::unsigned(&mut last_block_index_buf, last_block_index).unwrap();''', '''    match u8::try_from(last_block_index) {
        // the common case of a single byte
        Ok(byte) => last_block_index_buf.push(byte),
        Err(_) => {
            leb128::write::unsigned(&mut last_block_index_buf, last_block_index).unwrap();
        }
    }''')],
 demo='''
const t = new T({ max: 1000n }), a = acc(A);
t.dep(a, 500n * FEE);
for (let i = 0; i < 128; i++) t.xfer(a, acc(B), 1n);
const tip = t.w.query('icrc3_get_tip_certificate', []);
ok(tip.hash_tree.includes(Buffer.from('last_block_index').toString('hex') + '8203' + '42' + '8001'), 'index 128 is certified as its LEB128 encoding');
'''),
dict(id='C21-limit-per-range', property='C21',
 needs='a block query of several ranges whose total exceeds the configured maximum',
 breaks='the maximum number of blocks is applied to each range instead of to the whole answer',
 edits=[(ST, '''    let mut blocks = Vec::new();
    for GetBlocksArg { start, length } in args {
        let remaining_length = max_length.saturating_sub(blocks.len() as u64);
        if remaining_length == 0 {
            break;
        }
''', '''    let mut blocks = Vec::new();
    let remaining_length = max_length.saturating_sub(blocks.len() as u64);
    if remaining_length == 0 {
        return GetBlocksResult {
            log_length: Nat::from(log_length),
            blocks,
            archived_blocks: vec![],
        };
    }
    for GetBlocksArg { start, length } in args {
''')],
 demo='''
const t = new T({ max: 4n }), a = acc(A);
t.dep(a, 500n * FEE); for (let i = 0; i < 9; i++) t.xfer(a, acc(B), 1n);
const q = (rs) => t.w.query('icrc3_get_blocks', [rs.map(([start, length]) => ({ start, length }))]).blocks.map((b) => b.id);
eq(q([[0n, 9n]]), [0n, 1n, 2n, 3n], 'one range');
eq(q([[0n, 3n], [5n, 3n]]), [0n, 1n, 2n, 5n], 'two ranges');
'''),
dict(id='C22-zero-subaccount-normalised', property='C22',
 needs='an operation naming the default subaccount explicitly as 32 zero bytes',
 breaks='the stored block leaves the default subaccount out although the account was given (and hashed into the chain) with it',
 edits=[(CA, '''        if let Some(sub) = acc.subaccount {
            components.push(ByteBuf::from(sub.to_vec()))
        }
        CompactAccount(components)''', '''        if acc.effective_subaccount() != &[0; 32] {
            components.push(ByteBuf::from(acc.effective_subaccount().to_vec()))
        }
        CompactAccount(components)''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE); t.xfer(a, acc(B, S1), 1n); t.xfer(a, acc(B, Z32), 1n);
eq(t.block(1).to, acc(B, S1), 'subaccount as given'); eq(t.block(2).to, acc(B, Z32), 'default subaccount as given');
'''),
dict(id='C23-expired-fill-the-page', property='C23',
 needs='listing allowances page by page while expired allowances of the owner have not been cleaned up',
 breaks='expired allowances count towards the requested number, so a page can be short (even empty) although allowances follow, and a client paging through misses them',
 edits=[(ST, '''    read_state(|state| {
        for (account_spender, (allowance_amount, expiration)) in
            state.approvals.range(start_account_spender..)
        {
            if spender.is_some() && account_spender == start_account_spender {
                continue;
            }
            if result.len() >= max_results as usize {
                break;
            }
''', '''    read_state(|state| {
        let page = state
            .approvals
            .range(start_account_spender..)
            .filter(|(account_spender, _)| {
                spender.is_none() || *account_spender != start_account_spender
            })
            .take(max_results as usize);
        for (account_spender, (allowance_amount, expiration)) in page {
''')],
 demo='''
const t = new T(), a = acc(A), e = t.now + 10n * SEC;
t.dep(a, 50n * FEE); t.appr(a, acc('01'), FEE, { exp: e }); t.appr(a, acc('02'), FEE, { exp: e }); t.appr(a, acc('03'), 5n * FEE);
const q = (take) => t.w.query('icrc103_get_allowances', [{ from_account: a, prev_spender: null, take }], { caller: A }).Ok.map((x) => x.to_spender.owner);
eq(q(2n), ['01', '02'], 'first page'); t.at(e); eq(q(2n), ['03'], 'first page after two expired');
'''),
dict(id='C24-limit-change-drops-index', property='C24',
 needs='an upgrade that changes the block limit of a ledger whose index canister was configured',
 breaks='an upgrade argument naming only the block limit rebuilds the configuration from defaults and loses the index principal',
 edits=[(MA, '''                mutate_config(|config| {
                    config.max_blocks_per_request = max_blocks_per_request;
                })
            }''', '''                mutate_config(|config| {
                    *config = config::Config {
                        max_blocks_per_request,
                        ..Default::default()
                    };
                })
            }''')],
 demo='''
const t = new T({ index: C });
const q = () => t.w.query('icrc106_get_index_principal', []);
eq(q(), { Ok: C }, 'index configured');
t.w.upgrade({ Upgrade: { max_blocks_per_request: null, change_index_id: null } }); eq(q(), { Ok: C }, 'after a plain upgrade');
t.w.upgrade({ Upgrade: { max_blocks_per_request: 7n, change_index_id: null } }); eq(q(), { Ok: C }, 'after changing the limit');
'''),
dict(id='C25-one-expiry-at-a-time', property='C25',
 needs='several approvals with different expiries that have all expired, followed by one accepted operation',
 breaks='cleanup stops after the first expired instant, so an accepted operation removes only the approvals of one expiry instead of up to 100 expired ones',
 edits=[(ST, '''    let mut pruned = 0;
    for _ in 0..limit {
        match s.expiration_queue.first_key_value() {
            None => break,
            Some((key, _)) if key.0 > now => break,
            Some((key, _value)) => {''', '''    let mut pruned = 0;
    let due = s.expiration_queue.first_key_value().map(|(key, _)| key.0);
    for _ in 0..limit {
        match s.expiration_queue.first_key_value() {
            None => break,
            Some((key, _)) if key.0 > now || Some(key.0) != due => break,
            Some((key, _value)) => {''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE); for (let i = 1; i < 6; i++) t.appr(a, acc('0' + i), FEE, { exp: t.now + BigInt(i) * SEC });
t.pass(50n * SEC); t.xfer(a, acc(B), 1n);
eq(t.w.metrics().number_of_approvals, 0, 'approvals stored after they all expired and an operation ran');
'''),
dict(id='C26-short-tagged-principals', property='C26',
 needs='a withdrawal to a principal that ends in the byte 2 but is not self-authenticating (shorter than 29 bytes)',
 breaks='any principal ending in the self-authenticating tag byte is refused as a receiver, not only principals of full length',
 edits=[(ST, '''        .get(CANDID_PRINCIPAL_MAX_LENGTH_IN_BYTES - 1)
        .is_some_and(|b| *b == CANDID_PRINCIPAL_SELF_AUTHENTICATING_TAG)''', '''        .iter()
        .take(CANDID_PRINCIPAL_MAX_LENGTH_IN_BYTES)
        .last()
        .is_some_and(|b| *b == CANDID_PRINCIPAL_SELF_AUTHENTICATING_TAG)''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE);
eq(t.wd(a, 5n * FEE, { to: 'ab'.repeat(28) + '02' }).result, { Err: { InvalidReceiver: { receiver: 'ab'.repeat(28) + '02' } } }, 'user principal refused');
eq(t.wd(a, 5n * FEE, { to: '00000000000000010102' }).result, null, 'a canister-like principal is served');
'''),
dict(id='C27-metrics-path', property='C27',
 needs='an HTTP request for the metrics with a query string',
 breaks='the metrics endpoint is matched against the whole URL, so a request with a query string is answered 404',
 edits=[(MA, '''    if req.path() == "/metrics" {''', '''    if req.url == "/metrics" {''')],
 demo='''
const t = new T();
const q = (url) => t.w.query('http_request', [{ url, method: 'GET', body: '', headers: [] }]).status_code;
eq(q('/metrics'), 200, 'metrics'); eq(q('/metrics?since=5'), 200, 'metrics with a query'); eq(q('/other'), 404, 'other path');
'''),
dict(id='C28-expired-self-heal', property='C28',
 needs='a withdraw_from that fails after the owner set a new approval to expire between the request and the answer, so that the approval in force at the answer is zero with the old one still valid; and the failed amount just above two fees',
 breaks='the restored approval is requested as a conditional approval on the allowance seen at the request, so the answer of the management canister traps if the allowance changed in flight, losing the refund',
 edits=[(ST, '''        amount.saturating_add(current_allowance),
        Some(Memo::from(ByteBuf::from(PENALIZE_MEMO))),
        now,
        None,
        None,
        None,
        expires_at,
    )
}''', '''        // an allowance never exceeds the balance of its owner by much
        current_allowance
            .checked_add(amount)
            .expect("Bug: restored allowance out of range"),
        Some(Memo::from(ByteBuf::from(PENALIZE_MEMO))),
        now,
        None,
        None,
        None,
        expires_at,
    )
}''')],
 demo='''
const t = new T(), a = acc(A), s = acc(B);
t.dep(a, 50n * FEE); t.appr(a, s, 10n * FEE); t.wdf(s, a, 5n * FEE);
t.appr(a, s, U128);
const op = t.answer(t.calls()[0], rej(4, 'no', 5n * FEE));
ok(op.result && op.result.Err && op.result.Err.FailedToWithdrawFrom, 'the failed withdrawal is answered');
'''),
dict(id='C29-initial-balances-merged', property='C29',
 needs='installation with several initial balances for the same account',
 breaks='initial balances are merged per account before they are minted: one block per account in account order instead of one per entry in the given order',
 edits=[(MA, '''                for (account, amount) in initial_balances {
                    storage::mint(*account, *amount, None, ic_cdk::api::time())''', '''                let mut merged: Vec<(Account, u128)> = vec![];
                for (account, amount) in initial_balances {
                    match merged.iter_mut().find(|(a, _)| a == account) {
                        Some((_, sum)) => *sum += amount,
                        None => merged.push((*account, *amount)),
                    }
                }
                for (account, amount) in &merged {
                    storage::mint(*account, *amount, None, ic_cdk::api::time())''')],
 demo='''
const t = new T({ balances: [{ 0: acc(A), 1: 5n * FEE }, { 0: acc(B), 1: FEE }, { 0: acc(A), 1: 2n * FEE }] });
eq(t.bal(acc(A)), 7n * FEE, 'sum'); eq(t.len(), 3n, 'one block per entry');
'''),
]
