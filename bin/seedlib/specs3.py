ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'; LI = 'cycles-ledger/src/lib.rs'; CO = 'cycles-ledger/src/config.rs'; DP = 'depositor/src/main.rs'; FC = 'fake-cmc/src/main.rs'
SEEDS = [
dict(id='C01-upgrade-drops-dust', property='C01',
 needs='an account holding less than one fee, then an upgrade',
 breaks='the supply recomputed after an upgrade leaves out balances too small to be moved, so the reported supply no longer equals the balances',
 edits=[(ST, '''        for (_, balance) in balances.iter() {
            total_supply += balance;
        }''', '''        for (_, balance) in balances.iter() {
            // accounts that cannot pay a fee are inert
            if balance >= config::FEE {
                total_supply += balance;
            }
        }''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); t.xfer(a, b, 5n);
const s = t.supply(); t.w.upgrade({ Upgrade: null });
eq(t.supply(), s, 'supply after an upgrade'); eq(t.supply(), t.bal(a) + t.bal(b), 'supply against balances');
'''),
dict(id='C09-extension-ignored', property='C09',
 needs='an approval renewed with the same amount and a later expiry',
 breaks='renewing an approval with an unchanged amount keeps the old expiry, so the approval lapses early',
 edits=[(ST, '''            s.approvals.insert(key, (amount, expires_at));
            if expires_at != current_expiration {''', '''            if unchanged == amount && expires_at > current_expiration && current_expiration > 0 {
                // the same approval again
                return;
            }
            s.approvals.insert(key, (amount, expires_at));
            if expires_at != current_expiration {'''), (ST, '        Some((_, current_expiration)) => {', '        Some((unchanged, current_expiration)) => {')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE);
t.appr(a, b, 9n * FEE, { exp: t.now + 100n * SEC }); t.appr(a, b, 9n * FEE, { exp: t.now + 200n * SEC });
const want = t.now + 200n * SEC;
eq(t.alw(a, b), { a: 9n * FEE, e: want }, 'renewed approval');
'''),
dict(id='C03-timestamp-follows-creation', property='C03',
 needs='a creation time a little ahead of the ledger time (permitted drift)',
 breaks='a block of a transaction created by a fast clock is stamped with that clock instead of the ledger time',
 edits=[(ST, '''        transaction,
        timestamp: now,
        phash: read_state''', '''        timestamp: transaction
            .created_at_time
            .map_or(now, |created| created.max(now)),
        transaction,
        phash: read_state''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE);
const r = t.xfer(a, b, 5n, { cat: t.now + 30n * SEC });
eq(t.block(r.Ok).ts, t.now, 'time stamped on the block');
'''),
dict(id='C05-duplicate-costs-fee', property='C05',
 needs='a repeated withdrawal (same creation time) that is refused as a duplicate',
 breaks='retrying a withdrawal burns a fee although it is refused',
 edits=[(ST, '''        memo: Some(encode_withdraw_memo(&to)),
    };
    check_duplicate(&transaction)?;''', '''        memo: Some(encode_withdraw_memo(&to)),
    };
    check_duplicate(&transaction).inspect_err(|_| {
        penalize(&from, now);
    })?;''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE);
t.wd(a, 5n * FEE, { cat: t.now }); t.answer(t.calls()[0], okDeposit());
const n = t.len(), b = t.bal(a); t.wd(a, 5n * FEE, { cat: t.now });
eq([t.len(), t.bal(a)], [n, b], 'blocks and balance after a refused retry');
'''),
dict(id='C08-sibling-subaccount', property='C08',
 needs='a spend where the spender is another subaccount of the same owner',
 breaks='a spend from one subaccount by another subaccount of the same owner needs no allowance',
 edits=[(ST, '''    if let Some(spender) = spender {
        if spender != from {
            read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;''', '''    if let Some(spender) = spender {
        if spender.owner != from.owner {
            read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;'''),
 (ST, '''    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer''', '''    if let Some(spender) = spender {
        if spender.owner != from.owner {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE);
const r = t.xfrom(acc(A, S1), a, b, 5n * FEE);
ok(r.Err && r.Err.InsufficientAllowance, 'a spend without an allowance is refused');
'''),
dict(id='C08-creation-fee-not-counted', property='C08',
 needs='a canister creation by a spender, then another spend of what is left',
 breaks='creating a canister on behalf of another uses up the amount but not the fee, so repeated creations spend more than was granted',
 edits=[(ST, '''                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                let err = anyhow!(err).context(format!(
                    "unable''', '''                mutate_state(|state| use_allowance(state, &from, &spender, amount, now))
            {
                let err = anyhow!(err).context(format!(
                    "unable''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); t.appr(a, b, 20n * FEE);
t.ccf(b, a, 5n * FEE);
eq(t.alw(a, b).a, 14n * FEE, 'allowance left');
'''),
dict(id='C10-zero-expected-ignored', property='C10',
 needs='an approval on condition that the allowance is zero while it is not',
 breaks='expecting an allowance of zero is read as expecting nothing, so an existing allowance is overwritten',
 edits=[(ST, '    if expected_allowance.is_some() && expected_allowance != Some(allowance) {', '    if expected_allowance.unwrap_or_default() > 0 && expected_allowance != Some(allowance) {')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); t.appr(a, b, 9n * FEE);
const r = t.appr(a, b, 5n * FEE, { expect: 0n });
ok(r.Err && r.Err.AllowanceChanged, 'refused'); eq(t.alw(a, b).a, 9n * FEE, 'allowance');
'''),
dict(id='C10-huge-expected-ignored', property='C10',
 needs='an approval on condition of an allowance above 2^128 - 1',
 breaks='an expected allowance that no allowance can equal is dropped and the approval goes through',
 edits=[(MA, '''            None => {
                return Err(ApproveError::AllowanceChanged {
                    current_allowance: Nat::from(storage::allowance(&from, &args.spender, now).0),
                })
            }
            Some(n) => Some(n),''', '''            // amounts are capped, so is what was expected
            None => args.amount.0.to_u128().is_some().then(|| {
                storage::allowance(&from, &args.spender, now).0
            }),
            Some(n) => Some(n),''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); t.appr(a, b, 9n * FEE);
const r = t.appr(a, b, 5n * FEE, { expect: 1n << 128n });
ok(r.Err && r.Err.AllowanceChanged, 'refused'); eq(t.alw(a, b).a, 9n * FEE, 'allowance');
'''),
dict(id='C11-canister-under-latest-block', property='C11',
 needs='another operation is recorded while a creation with a creation time is in flight; then the creation is repeated',
 breaks='the created canister is remembered under whatever block is last when the answer arrives, so a retry names the wrong original block',
 edits=[(ST, '''                            .insert(tx_hash, (block_index, Some(canister_id)));''', '''                            .insert(tx_hash, (state.blocks.len() - 1, Some(canister_id)));''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B), cat = t.now;
t.dep(a, 50n * FEE);
t.cc(a, 5n * FEE, { cat }); t.xfer(a, b, 1n); t.answer(t.calls()[0], cmcOk(B));
const r = t.cc(a, 5n * FEE, { cat }).result;
eq(r.Err && r.Err.Duplicate && r.Err.Duplicate.duplicate_of, 1n, 'original named by the retry');
'''),
dict(id='C25-one-entry-per-instant', property='C25',
 needs='two different transactions with the same creation time; one is repeated after the other',
 breaks='remembering the second of two transactions created at one instant replaces the first in the time index; after pruning by time the first is remembered for ever or the wrong one forgotten',
 edits=[(ST, '''            self.transaction_timestamps
                .insert((ts, self.blocks.len() - 1), ());''', '''            // one entry per creation time is enough to find what to prune
            let first = self
                .transaction_timestamps
                .range((ts, 0)..=(ts, u64::MAX))
                .next();
            if first.is_none() {
                self.transaction_timestamps
                    .insert((ts, self.blocks.len() - 1), ());
            }''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B), cat = t.now;
t.dep(a, 50n * FEE);
t.xfer(a, b, 1n, { cat }); t.xfer(a, b, 2n, { cat });
t.pass(WINDOW + DRIFT + 5n * SEC); t.xfer(a, b, 3n);
eq(t.xfer(a, b, 2n, { cat }), { Err: { TooOld: null } }, 'the second, repeated after the window');
'''),
dict(id='C12-future-in-seconds', property='C12',
 needs='a creation time beyond the permitted drift by less than a second',
 breaks='the creation time is compared in whole seconds, so one slightly too far in the future is accepted',
 edits=[(ST, '    if created_at_time > &now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64) {', '''    let seconds = |t: u64| t / 1_000_000_000;
    if seconds(*created_at_time)
        > seconds(now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64))
    {''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); t.at(t.now + 7n);
const r = t.xfer(a, b, 1n, { cat: t.now + DRIFT + 1n });
eq(r, { Err: { CreatedInFuture: { ledger_time: t.now } } }, 'one nanosecond too far ahead');
'''),
dict(id='C13-huge-fee-ignored', property='C13',
 needs='an approval naming a fee above 2^128 - 1',
 breaks='an approval naming a fee too large to represent is executed as if it named none',
 edits=[(MA, '''            None => {
                return Err(ApproveError::BadFee {
                    expected_fee: Nat::from(config::FEE),
                })
            }
            Some(fee) => Some(fee),''', '''            None => args.expires_at.is_none().then_some(u128::MAX),
            Some(fee) => Some(fee),''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE);
const r = t.appr(a, b, 5n * FEE, { fee: 1n << 128n, exp: t.now + SEC });
ok(r.Err && r.Err.BadFee, 'refused');
'''),
dict(id='C14-approve-keeps-reserve', property='C14',
 needs='an approval by an account holding exactly the fee',
 breaks='an account holding exactly the fee cannot approve',
 edits=[(ST, '    if balance < config::FEE {\n        return Err(ApproveError::InsufficientFunds', '    if balance.saturating_sub(config::FEE) == 0 {\n        return Err(ApproveError::InsufficientFunds')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, FEE);
const r = t.appr(a, b, 5n * FEE);
eq(r, { Ok: 1n }, 'approval with exactly the fee');
'''),
dict(id='C16-refund-to-spender', property='C16',
 needs='a failed withdrawal on behalf of an account, by a spender other than its owner, with an approval that expires',
 breaks='a failed withdrawal on behalf of another is given back to the spender if the approval was a temporary one',
 edits=[(ST, 'match reimburse(from, amount_to_reimburse, now, PENALIZE_MEMO) {', 'match reimburse(\n            spender.filter(|_| old_expires_at.is_some_and(|expiry| expiry <= now)).unwrap_or(from),\n            amount_to_reimburse,\n            now,\n            PENALIZE_MEMO,\n        ) {')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); t.appr(a, b, 20n * FEE, { exp: t.now + 10n * SEC });
t.wdf(b, a, 5n * FEE); t.pass(20n * SEC); t.answer(t.calls()[0], rej(4, 'no', 5n * FEE));
eq([t.bal(a), t.bal(b)], [47n * FEE, 0n], 'who was given back');
'''),
dict(id='C16-wrong-refund-block', property='C16',
 needs='a withdrawal that fails after other blocks were recorded meanwhile',
 breaks='the answer to a failed withdrawal names a block derived from the burn instead of the actual refund block',
 edits=[(LI, '''            refund_block: fee_block,
            rejection_code,
            rejection_reason,
            ..
        } => WithdrawError::FailedToWithdraw {
            fee_block,''', '''            withdraw_from_block,
            refund_block,
            rejection_code,
            rejection_reason,
            ..
        } => WithdrawError::FailedToWithdraw {
            fee_block: refund_block.and(withdraw_from_block.map(|b| b + 1u64)),''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE);
const op = t.wd(a, 5n * FEE); t.xfer(a, b, 1n); t.answer(t.calls()[0], rej(4, 'no', 5n * FEE));
eq(op.result.Err.FailedToWithdraw.fee_block, t.len() - 1n, 'refund block named');
'''),
dict(id='C17-subnet-choice-lost', property='C17',
 needs='a creation naming a subnet but no settings',
 breaks='the subnet chosen for a canister is dropped when no settings are given with it',
 edits=[(ST, '''    let argument = argument
        .map(|arg| CmcCreateCanisterArgs {''', '''    let argument = argument
        .filter(|arg| arg.settings.is_some())
        .map(|arg| CmcCreateCanisterArgs {''')],
 demo='''
import { cmcDid } from './engine/world.mjs';
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE);
t.cc(a, 5n * FEE, { args: { settings: null, subnet_selection: { Subnet: { subnet: B } } } });
eq(cmcDid.decode(cmcDid.service.create_canister.args, t.pending().arg)[0].subnet_selection, { Subnet: { subnet: B } }, 'subnet asked for');
'''),
dict(id='C18-threshold-on-sent-amount', property='C18',
 needs='a creation by a spender of more than two fees of which at most two come back',
 breaks='whether the allowance is restored is decided by the amount sent instead of the amount returned, so an approval worth nothing is recorded and charged',
 edits=[(ST, '                            && amount_to_reimburse > config::FEE\n', '                            && amount > 2 * config::FEE\n')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); t.appr(a, b, 20n * FEE);
const op = t.ccf(b, a, 5n * FEE), n = t.len(); t.answer(t.calls()[0], cmcRefunded(FEE + 5n));
eq(t.len(), n + 1n, 'blocks recorded for the failed creation'); eq(op.result.Err.FailedToCreateFrom.approval_refund_block, null, 'approval block named');
'''),
dict(id='C18-longest-expiry', property='C18',
 needs='the approval is replaced by one with an earlier expiry while a spend by the spender is in flight and then fails',
 breaks='restoring the allowance extends the approval in force to the expiry of the replaced one',
 edits=[(ST, '''    let expires_at = if current_expiry > 0 {
        Some(current_expiry)''', '''    let expires_at = if current_expiry > 0 {
        Some(current_expiry.max(old_expires_at.unwrap_or_default()))''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B), t0 = t.now;
t.dep(a, 50n * FEE); t.appr(a, b, 20n * FEE, { exp: t0 + 100n * SEC });
t.wdf(b, a, 5n * FEE); t.appr(a, b, 7n * FEE, { exp: t0 + 50n * SEC }); t.answer(t.calls()[0], rej(4, 'no', 5n * FEE));
eq(t.alw(a, b).e, t0 + 50n * SEC, 'expiry after the allowance was restored');
'''),
dict(id='C20-certified-when-pruned', property='C20',
 needs='a failed spend by a spender whose allowance is restored (the last block of the settlement)',
 breaks='the tip is certified once per operation together with the clean-up instead of with each block, which the restored approval never reaches',
 edits=[(ST, '        certified_data_set(self.root_hash());\n', ''), (ST, '    read_state(check_invariants);\n}', '    read_state(check_invariants);\n    certified_data_set(read_state(|state| state.root_hash()));\n}'),
  (MA, '''            mutate_state(|state| {
                state.config.set(config)''', '''            ic_cdk::api::certified_data_set(read_state(|state| state.root_hash()));
            mutate_state(|state| {
                state.config.set(config)''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); t.appr(a, b, 20n * FEE);
const cd = () => Buffer.from(t.w.can.certified).toString('hex');
t.wdf(b, a, 5n * FEE); const before = t.len(); t.answer(t.calls()[0], rej(4, 'no', 5n * FEE));
eq(t.len() - before, 2n, 'blocks of the settlement');
import { cborDecode, treeRoot } from './engine/icrc3.mjs';
const tip = t.w.query('icrc3_get_tip_certificate', []);
eq(Buffer.from(treeRoot(cborDecode(Buffer.from(tip.hash_tree, 'hex')))).toString('hex'), cd(), 'root of the served tree against the certified data');
'''),
dict(id='C21-stops-past-the-end', property='C21',
 needs='a query of several ranges, one that starts past the end before one that does not',
 breaks='a range past the end of the log hides all ranges asked for after it',
 edits=[(ST, '''            Some(start) if start < log_length => start,
            _ => continue,''', '''            Some(start) if start < log_length => start,
            _ => break,''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE); t.dep(a, 50n * FEE);
const ids = t.w.query('icrc3_get_blocks', [[{ start: 9n, length: 1n }, { start: 0n, length: 2n }]]).blocks.map((b) => b.id);
eq(ids, [0n, 1n], 'blocks of the second range');
'''),
dict(id='C22-fee-stated-twice', property='C22',
 needs='a transfer or approval that names the fee',
 breaks='the block of an operation that names the fee states it both in the transaction and in the block',
 edits=[(ST, '        Op::Transfer { fee, .. } | Op::Approve { fee, .. } => fee.is_none().then_some(config::FEE),', '        Op::Transfer { .. } | Op::Approve { .. } => Some(config::FEE),')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE);
const r = t.xfer(a, b, 5n, { fee: FEE }), v = t.block(r.Ok).value.Map.map((e) => e['0']);
ok(!v.includes('fee'), 'the fee is stated once');
'''),
dict(id='C23-cursor-skips-next', property='C23',
 needs='listing continued after a spender whose allowance has gone since the previous page',
 breaks='continuing a listing always drops one entry, also when the cursor itself is no longer listed',
 edits=[(ST, '''            if spender.is_some() && account_spender == start_account_spender {
                continue;
            }
            if result.len()''', '''            if spender.is_some() && !skipped {
                // the last entry of the previous page
                skipped = true;
                continue;
            }
            if result.len()'''), (ST, '    let mut result = vec![];\n    let start_account_spender', '    let mut result = vec![];\n    let mut skipped = false;\n    let start_account_spender')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE); for (const s of [B, C, TARGET]) t.appr(a, acc(s), 5n * FEE);
const q = (prev) => t.w.query('icrc103_get_allowances', [{ from_account: a, prev_spender: prev, take: null }], { caller: A }).Ok.map((x) => x.to_spender.owner);
eq(q(acc(B)), [C, TARGET], 'after an entry in force'); t.appr(a, acc(B), 0n); eq(q(acc(B)), [C, TARGET], 'after an entry that has gone');
'''),
dict(id='C24-upgrade-prunes-ahead', property='C24',
 needs='an upgrade while an approval is about to expire within the permitted drift, or a transaction about to leave the window',
 breaks='the clean-up run after an upgrade looks ahead by the permitted drift and removes approvals still in force',
 edits=[(MA, '''fn post_upgrade(ledger_args: Option<LedgerArgs>) {
''', '''fn post_upgrade(ledger_args: Option<LedgerArgs>) {
    // the clock of the new version may run ahead
    prune(ic_cdk::api::time().saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64));
''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); t.appr(a, b, 5n * FEE, { exp: t.now + 30n * SEC });
const was = t.alw(a, b); t.w.upgrade({ Upgrade: null });
eq(t.alw(a, b), was, 'allowance after the upgrade');
'''),
dict(id='C25-late-answer-remembered', property='C25',
 needs='a creation with creation time answered more than 24 hours later, after its entry was pruned',
 breaks='the answer of a creation that left the window is remembered for ever: the table of hashes grows beyond the table of times',
 edits=[(ST, '''                    if state.transaction_hashes.contains_key(&tx_hash) {
                        state''', '''                    if transaction.created_at_time.is_some() {
                        state''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B), cat = t.now;
t.dep(a, 50n * FEE);
t.cc(a, 5n * FEE, { cat }); t.pass(WINDOW + DRIFT + 5n * SEC); t.xfer(a, b, 1n); t.answer(t.calls()[0], cmcOk(B)); t.xfer(a, b, 1n);
const m = t.w.metrics();
eq([m.number_of_transaction_hashes, m.number_of_transaction_timestamps], [0, 0], 'remembered transactions');
'''),
dict(id='C25-spent-approval-queued', property='C25',
 needs='an expiring approval spent to exactly zero',
 breaks='an approval spent completely stays in the expiration queue, which no longer matches the approvals',
 edits=[(ST, '''    if new_amount == 0 {
        if expiration > 0 {
            s.expiration_queue.remove(&(expiration, key));
        }
        s.approvals.remove(&key);
    } else {''', '''    if new_amount == 0 {
        s.approvals.remove(&key);
    } else {''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); t.appr(a, b, 5n * FEE, { exp: t.now + 100n * SEC }); t.xfrom(b, a, b, 4n * FEE);
const m = t.w.metrics();
eq([m.number_of_approvals, m.number_of_approval_expiration_entries], [0, 0], 'approvals and queue entries');
'''),
dict(id='C26-anonymous-denied', property='C26',
 needs='a transfer from or to the anonymous principal',
 breaks='the anonymous principal is treated as forbidden',
 edits=[(ST, 'const DENIED_PRINCIPALS: [Principal; 1] = [Principal::management_canister()];', 'const DENIED_PRINCIPALS: [Principal; 2] =\n    [Principal::management_canister(), Principal::anonymous()];')],
 demo='''
const t = new T(), a = acc(A), anon = acc('04');
t.dep(a, 50n * FEE); t.dep(anon, 50n * FEE);
ok(t.xfer(a, anon, 5n).Ok !== undefined, 'transfer to the anonymous principal'); ok(t.xfer(anon, a, 5n).Ok !== undefined, 'transfer by the anonymous principal');
'''),
dict(id='C28-unknown-reject-code', property='C28',
 needs='a withdrawal or creation rejected with a reject code the ledger does not know',
 breaks='an unknown reject code makes the settlement trap: the cycles are burned and never given back',
 edits=[(ST, '''                .map(|c| c.into())
                .unwrap_or(RejectionCode::Unknown),''', '''                .map(|c| c.into())
                .expect("the system only uses the published reject codes"),''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE);
t.wd(a, 5n * FEE); t.answer(t.calls()[0], rej(17, 'new', 5n * FEE));
eq(t.bal(a), 48n * FEE, 'balance after a failure with a new reject code');
'''),
dict(id='C29-zero-balances-skipped', property='C29',
 needs='an installation whose initial balances contain an entry of zero',
 breaks='entries of zero leave no block, so the blocks no longer correspond to the entries',
 edits=[(MA, '                for (account, amount) in initial_balances {', '                for (account, amount) in initial_balances.iter().filter(|(_, amount)| *amount > 0) {')],
 demo='''
const t = new T({ balances: [{ 0: acc(A), 1: 5n }, { 0: acc(B), 1: 0n }, { 0: acc(C), 1: 7n }] });
eq(t.len(), 3n, 'blocks after installation');
'''),
dict(id='C27-limit-metadata-narrow', property='C27',
 needs='a configured block limit above 2^32',
 breaks='the metadata reports a configured limit above 32 bits wrongly',
 edits=[(MA, '            read_config(|config| config.max_blocks_per_request),', '            read_config(|config| config.max_blocks_per_request.min(u32::MAX as u64)),')],
 demo='''
const t = new T({ max: (1n << 32n) + 9n });
const m = t.w.query('icrc1_metadata', []).find((e) => e['0'] === 'dfn:max_blocks_per_request');
eq(m['1'], { Nat: (1n << 32n) + 9n }, 'limit in the metadata');
'''),
dict(id='C04-failed-refund-credited', property='C04',
 needs='the creating service answers that it could not give the cycles back',
 breaks='cycles the creating service kept are credited back all the same, so balances exceed the cycles held',
 edits=[(ST, '''                } => Err((
                    RejectionCode::CanisterError,
                    0,
''', '''                } => Err((
                    RejectionCode::CanisterError,
                    amount,
''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE);
t.cc(a, 5n * FEE); t.answer(t.calls()[0], cmcRefundFailed());
eq(t.bal(a), 44n * FEE, 'balance after a creation whose refund failed');
'''),
dict(id='C30-empty-memo-dropped', property='C30',
 needs='a deposit through the depositor with an empty memo',
 breaks='the depositor passes an empty memo on as none',
 edits=[(DP, '        memo: arg.memo,', '        memo: arg.memo.filter(|memo| !memo.0.is_empty()),')],
 demo='''
import { dep } from './comp.mjs';
eq(dep(''), '', 'empty memo handed on'); eq(dep(null), null, 'absent memo handed on'); eq(dep('0a'), '0a', 'memo handed on');
'''),
dict(id='C30-error-before-minimum', property='C30',
 needs='a creation below the minimum between scripting a failure and the creation it is meant for',
 breaks='a creation below the minimum uses up the failure scripted for the next creation',
 edits=[(FC, '''    let cycles = msg_cycles_available();
    if cycles < 100_000_000_000 {
        return''', '''    let cycles = msg_cycles_available();
    if cycles < 100_000_000_000 {
        STATE.with(|s| s.borrow_mut().fail_next_create_canister_with = None);
        return''')],
 demo='''
import { cmc } from './comp.mjs';
const c = cmc(); c.fail({ RefundFailed: { create_error: 'x', refund_error: 'y' } });
ok(c.create(5n).Err.Refunded, 'too few cycles'); ok(c.create(200_000_000_000n)?.Err?.RefundFailed, 'the scripted failure applies to the next creation');
'''),
dict(id='C30-failure-sticks', property='C30',
 needs='two creations after a scripted failure that keeps the cycles',
 breaks='a scripted failure that keeps the cycles applies to every following creation',
 edits=[(FC, '        state.fail_next_create_canister_with.take()\n', '''        let next = state.fail_next_create_canister_with.take();
        if let Some(CmcCreateCanisterError::RefundFailed { .. }) = &next {
            state.fail_next_create_canister_with.clone_from(&next);
        }
        next
''')],
 demo='''
import { cmc } from './comp.mjs';
const c = cmc(); c.fail({ RefundFailed: { create_error: 'x', refund_error: 'y' } });
ok(c.create(200_000_000_000n)?.Err?.RefundFailed, 'the scripted failure'); eq(c.create(200_000_000_000n), undefined, 'the next creation goes on to the management canister');
'''),
]
