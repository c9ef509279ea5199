ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'; LI = 'cycles-ledger/src/lib.rs'; CA = 'cycles-ledger/src/compact_account.rs'
SEEDS = [
dict(id='C01-self-transfer-cache', property='C01',
 needs='an account spends its whole balance in one operation (balance reaches exactly zero); heals at the next upgrade because the supply is recomputed',
 breaks='debit() returns early when the balance becomes zero, before the cached total supply is decreased: the reported total supply drifts above the sum of the balances',
 edits=[(ST, '''        self.cache.total_supply = self
            .total_supply()
            .checked_sub(amount)
            .context("Underflow while changing the total supply")?;
        if new_balance == 0 {
            self.balances.remove(&account_key);
        } else {
            self.balances.insert(account_key, new_balance);
        }
        Ok(new_balance)''', '''        if new_balance == 0 {
            // the account disappears from the table
            self.balances.remove(&account_key);
            return Ok(new_balance);
        }
        self.balances.insert(account_key, new_balance);
        self.cache.total_supply = self
            .total_supply()
            .checked_sub(amount)
            .context("Underflow while changing the total supply")?;
        Ok(new_balance)''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(a, 10n * FEE); t.dep(b, 5n * FEE);
t.xfer(a, b, 2n * FEE);
eq(t.supply(), t.bal(a) + t.bal(b), 'supply after an ordinary transfer');
t.xfer(a, b, 6n * FEE);
eq(t.bal(a), 0n, 'a is empty');
eq(t.supply(), t.bal(a) + t.bal(b), 'supply after the account was emptied');
'''),
dict(id='C02-same-owner-spender', property='C02',
 needs='a spend through icrc2_transfer_from in which the spender account is another subaccount of the owner of the debited account',
 breaks='the allowance check and its deduction are skipped whenever spender and payer have the same owner, so blocks of spends without an allowance are recorded, which replaying the log under ICRC-2 rejects',
 edits=[(ST, '''    // check allowance
    if let Some(spender) = spender {
        if spender != from {
            read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
        }
    }
''', '''    // check allowance
    if let Some(spender) = spender {
        if spender.owner != from.owner {
            read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
        }
    }
'''), (ST, '''    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));''', '''    if let Some(spender) = spender {
        if spender.owner != from.owner {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));''')],
 demo='''
const t = new T(), a = acc(A), s = acc(A, S1);
t.dep(a, 10n * FEE); t.dep(s, 10n * FEE);
const n = t.len();
const r = t.xfrom(s, a, acc(B), FEE);
ok(r.Err, 'a spender account without an allowance is refused');
eq(t.len(), n, 'nothing recorded');
'''),
dict(id='C03-refund-dated-back', property='C03',
 needs='a withdrawal that fails after time has passed (and possibly other blocks were recorded) between the request and the answer of the management canister',
 breaks='the refund block of a failed withdrawal is stamped with the time of the request instead of the ledger time at which it is recorded',
 edits=[(ST, '''        deposit_cycles(&DepositCyclesArgs { canister_id: to }, amount).await;
    let now = ic_cdk::api::time();
''', '''        deposit_cycles(&DepositCyclesArgs { canister_id: to }, amount).await;
''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE); t.wd(a, 5n * FEE);
t.pass(7n * SEC); t.dep(acc(B), FEE);
t.answer(t.calls()[0], rej(4, 'no', 5n * FEE));
const b = t.block(t.len() - 1n);
eq(b.op, 'mint', 'refund recorded'); eq(b.ts, t.now, 'stamped with the ledger time');
'''),
dict(id='C04-creation-overpays', property='C04',
 needs='a canister creation that names creation arguments (settings or subnet selection)',
 breaks='the creation request carries the fee in addition to the burned amount when creation arguments are given, so the ledger holds fewer cycles than the balances it backs',
 edits=[(ST, '''    let argument = argument
        .map(|arg| CmcCreateCanisterArgs {''', '''    let attached = match &argument {
        Some(_) => amount_with_fee,
        None => amount,
    };
    let argument = argument
        .map(|arg| CmcCreateCanisterArgs {'''), (ST, '''        .with_arg(argument)
        .with_cycles(amount)
''', '''        .with_arg(argument)
        .with_cycles(attached)
''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE);
t.cc(a, 5n * FEE); eq(t.pending().cycles, 5n * FEE, 'cycles sent for a plain creation'); t.answer(t.calls()[0], cmcOk(B));
const c0 = t.w.can.cycles;
t.cc(a, 5n * FEE, { args: { settings: null, subnet_selection: null } });
eq(c0 - t.w.can.cycles, t.block(t.len() - 1n).amt, 'cycles that left the ledger against the burned amount');
'''),
dict(id='C05-allowance-used-before-window', property='C05',
 needs='icrc2_transfer_from by a spender with a sufficient allowance and a created_at_time outside the accepted window',
 breaks='the allowance is deducted before the creation time is validated, so a call refused as too old or in the future still consumes the allowance',
 edits=[(ST, '''    let block_index = process_transaction(transaction.clone(), now)?;

    // The operations below should not return an error because of the checks
    // before and inside `process_transaction`.
    // If an error happens, then log it and panic so that
    // the state is reset to a valid one.

    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));
            }
        }
    }

''', '''    // The operations below should not return an error because of the checks
    // before and inside `process_transaction`.
    // If an error happens, then log it and panic so that
    // the state is reset to a valid one.

    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));
            }
        }
    }

    let block_index = process_transaction(transaction.clone(), now)?;

''')],
 demo='''
const t = new T(), a = acc(A), s = acc(B);
t.dep(a, 50n * FEE); t.appr(a, s, 10n * FEE);
const r = t.xfrom(s, a, acc(C), FEE, { cat: t.now - WINDOW - DRIFT - 1n });
eq(r, { Err: { TooOld: null } }, 'refused as too old');
eq(t.alw(a, s).a, 10n * FEE, 'allowance after the refused call');
'''),
dict(id='C06-aliased-self-transfer', property='C06',
 needs='a transfer from an account to itself in which one side spells the default subaccount as 32 zero bytes and the other leaves it out',
 breaks='the balances of payer and receiver are computed up front and written back; the guard for transfers to oneself compares the raw subaccounts, so the aliased self transfer writes the credited balance last and creates cycles',
 edits=[(ST, '''    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };

    if let Err(err) = mutate_state(|state| state.credit(&to, amount)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };

    Ok(Nat::from(block_index))''', '''    let to_itself = from.owner == to.owner && from.subaccount == to.subaccount;
    let to_before = balance_of(&to);
    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };
    let to_base = if to_itself {
        balance_of(&to)
    } else {
        to_before
    };

    // the credit was checked above, write the new balance of the receiver
    mutate_state(|state| {
        state
            .balances
            .insert(to_account_key(&to), to_base + amount);
        state.cache.total_supply += amount;
    });

    Ok(Nat::from(block_index))''')],
 demo='''
const t = new T(), a = acc(A), z = acc(A, Z32);
t.dep(a, 50n * FEE); t.dep(acc(B), FEE);
t.xfer(a, acc(B), FEE); eq(t.bal(a), 48n * FEE, 'ordinary transfer');
t.xfer(a, a, 5n * FEE); eq(t.bal(a), 47n * FEE, 'transfer to oneself');
t.xfer(a, z, 5n * FEE); eq(t.bal(a), 46n * FEE, 'transfer to oneself written differently');
'''),
dict(id='C07-drain-by-self-transfer', property='C07',
 needs='icrc2_transfer_from by a stranger whose destination equals the source account',
 breaks='a transfer whose source and destination coincide is taken not to move funds and needs no allowance; anybody can then burn the fees of a victim',
 edits=[(ST, '''    // check allowance
    if let Some(spender) = spender {
        if spender != from {
            read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
        }
    }

    // Check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| TransferFromError''', '''    // check allowance; nothing is spent when the funds stay where they are
    let spender_to_charge = spender.filter(|spender| *spender != from && from != to);
    if let Some(spender) = spender_to_charge {
        read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
    }

    // Check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| TransferFromError'''), (ST, '''    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));
            }
        }
    }
''', '''    if let Some(spender) = spender_to_charge {
        if let Err(err) =
            mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
        {
            ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));
        }
    }
''')],
 demo='''
const t = new T(), a = acc(A), s = acc(B);
t.dep(a, 50n * FEE);
t.xfrom(s, a, acc(C), FEE); eq(t.bal(a), 50n * FEE, 'a stranger cannot move the funds');
t.xfrom(s, a, a, FEE); eq(t.bal(a), 50n * FEE, 'a stranger cannot burn fees');
'''),
dict(id='C08-explicit-fee-uncharged', property='C08',
 needs='icrc2_transfer_from that does not name the fee explicitly... and an allowance larger than the spend',
 breaks='the allowance is reduced by the amount only when the spender names the fee explicitly (the fee is deducted from the balance but not from the allowance)',
 edits=[(ST, '''    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));''', '''    let spent = amount + effective_fee(&transaction.operation).unwrap_or_default();
    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) = mutate_state(|state| {
                use_allowance(state, &from, &spender, spent.max(config::FEE), now)
            }) {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));''')],
 demo='''
const t = new T(), a = acc(A), s = acc(B);
t.dep(a, 50n * FEE); t.appr(a, s, 20n * FEE);
t.xfrom(s, a, acc(C), 2n * FEE); eq(t.alw(a, s).a, 17n * FEE, 'allowance after a spend');
t.xfrom(s, a, acc(C), 2n * FEE, { fee: FEE }); eq(t.alw(a, s).a, 14n * FEE, 'allowance after a spend naming the fee');
'''),
dict(id='C09-stale-expiry-entry', property='C09',
 needs='an expiring approval spent to exactly zero, a later approval of the same pair without expiry (or with a later one), the first expiry passing, and any later operation',
 breaks='use_allowance leaves the entry in the expiration queue when an allowance is spent completely; cleanup later removes the live approval that replaced it',
 edits=[(ST, '''    if new_amount == 0 {
        if expiration > 0 {
            s.expiration_queue.remove(&(expiration, key));
        }
        s.approvals.remove(&key);
    } else {
        s.approvals.insert(key, (new_amount, expiration));
    }

    Ok(())''', '''    if new_amount == 0 {
        // the entry in the expiration queue is dropped when it is due
        s.approvals.remove(&key);
    } else {
        s.approvals.insert(key, (new_amount, expiration));
    }

    Ok(())''')],
 demo='''
const t = new T(), a = acc(A), s = acc(B), e = t.now + 100n * SEC;
t.dep(a, 50n * FEE); t.appr(a, s, 3n * FEE, { exp: e });
t.xfrom(s, a, acc(C), 2n * FEE); eq(t.alw(a, s).a, 0n, 'allowance used up');
t.appr(a, s, 7n * FEE); eq(t.alw(a, s), { a: 7n * FEE, e: null }, 'new approval without expiry');
t.at(e + 1n); t.dep(acc(C), FEE);
eq(t.alw(a, s), { a: 7n * FEE, e: null }, 'new approval after the expiry of the old one');
'''),
dict(id='C10-cas-on-expired', property='C10',
 needs='a conditional approval at a moment when the previous approval of the pair has expired but was not cleaned up yet',
 breaks='the expected allowance is compared with the stored approval even if it has expired, so a condition of zero is refused and a condition on the expired amount is accepted',
 edits=[(ST, '''    let allowance = allowance(&from, &spender, now).0;
    if expected_allowance.is_some()''', '''    let key = (to_account_key(&from), to_account_key(&spender));
    let allowance = read_state(|s| s.approvals.get(&key).unwrap_or_default()).0;
    if expected_allowance.is_some()''')],
 demo='''
const t = new T(), a = acc(A), s = acc(B), e = t.now + 100n * SEC;
t.dep(a, 50n * FEE); t.appr(a, s, 3n * FEE, { exp: e });
ok(t.appr(a, s, 4n * FEE, { expect: 3n * FEE, exp: e }).Ok !== undefined, 'matching condition accepted');
t.at(e + 5n);
eq(t.appr(a, s, 6n * FEE, { expect: 4n * FEE }), { Err: { AllowanceChanged: { current_allowance: 0n } } }, 'condition on an expired allowance');
'''),
dict(id='C11-failed-withdraw-forgotten', property='C11',
 needs='a withdrawal with created_at_time that fails, followed by a resubmission of the same request inside the window',
 breaks='the transaction is removed from the deduplication table when the withdrawal fails, so the same request is executed a second time',
 edits=[(ST, '''    if let Err(err) = deposit_cycles_result {
        let (rejection_code, rejection_reason) = call_error_to_reject(err);

        // subtract''', '''    if let Err(err) = deposit_cycles_result {
        let (rejection_code, rejection_reason) = call_error_to_reject(err);

        // let the caller try again with the same arguments
        if let Ok(tx_hash) = transaction.hash() {
            mutate_state(|state| state.transaction_hashes.remove(&tx_hash));
        }

        // subtract''')],
 demo='''
const t = new T(), a = acc(A), cat = t.now;
t.dep(a, 50n * FEE); t.wd(a, 5n * FEE, { cat });
eq(t.wd(a, 5n * FEE, { cat }).result, { Err: { Duplicate: { duplicate_of: 1n } } }, 'duplicate while in flight');
t.answer(t.calls()[0], rej(4, 'no', 5n * FEE));
eq(t.wd(a, 5n * FEE, { cat }).result, { Err: { Duplicate: { duplicate_of: 1n } } }, 'duplicate after the failure');
'''),
dict(id='C11-window-without-drift', property='C11',
 needs='a transaction resubmitted between 24 h and 24 h + 60 s after its creation time, after some other operation ran in that minute',
 breaks='cleanup forgets transactions one drift earlier than the acceptance window ends, so inside the last minute a transaction can be executed twice',
 edits=[(ST, '''fn is_before_transaction_window(timestamp: u64, now: u64) -> bool {
    timestamp
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
}''', '''fn is_before_transaction_window(timestamp: u64, now: u64) -> bool {
    timestamp.saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64) < now
}''')],
 demo='''
const t = new T(), a = acc(A), cat = t.now;
t.dep(a, 50n * FEE); t.xfer(a, acc(B), FEE, { cat });
t.pass(WINDOW + DRIFT / 2n); t.dep(acc(C), FEE);
eq(t.xfer(a, acc(B), FEE, { cat }), { Err: { Duplicate: { duplicate_of: 1n } } }, 'resubmission inside the drift');
'''),
dict(id='C12-wrapping-window', property='C12',
 needs='a created_at_time within a day of the largest representable time',
 breaks='the window is computed with wrapping arithmetic, so creation times at the very end of the range are answered as too old instead of in the future',
 edits=[(ST, '''    if created_at_time
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
    {
        return Err(CreatedAtTimeValidationError::TooOld);
    }
''', '''    let window =
        config::TRANSACTION_WINDOW.as_nanos() as u64 + config::PERMITTED_DRIFT.as_nanos() as u64;
    if created_at_time.wrapping_add(window) < now {
        return Err(CreatedAtTimeValidationError::TooOld);
    }
''')],
 demo='''
const t = new T(), a = acc(A);
t.dep(a, 50n * FEE);
eq(t.xfer(a, acc(B), FEE, { cat: t.now + DRIFT + 1n }), { Err: { CreatedInFuture: { ledger_time: t.now } } }, 'just in the future');
eq(t.xfer(a, acc(B), FEE, { cat: U64 - SEC }), { Err: { CreatedInFuture: { ledger_time: t.now } } }, 'far in the future');
'''),
dict(id='C13-overpaid-fee-accepted', property='C13',
 needs='an approval naming a fee larger than the published one',
 breaks='an approval is only refused when the named fee is too small; with a larger fee it is accepted, charged the published fee, and its block states the wrong one',
 edits=[(ST, '''    if suggested_fee.is_some() && suggested_fee != Some(config::FEE) {
        return Err(ApproveError::BadFee {
            expected_fee: Nat::from(config::FEE),
        });
    }

    // check that the `from` account has enough funds to pay the fee''', '''    if suggested_fee.unwrap_or(config::FEE) < config::FEE {
        return Err(ApproveError::BadFee {
            expected_fee: Nat::from(config::FEE),
        });
    }

    // check that the `from` account has enough funds to pay the fee''')],
 demo='''
const t = new T(), a = acc(A), s = acc(B);
t.dep(a, 50n * FEE);
eq(t.appr(a, s, FEE, { fee: FEE - 1n }), { Err: { BadFee: { expected_fee: FEE } } }, 'too small a fee');
eq(t.appr(a, s, FEE, { fee: FEE + 1n }), { Err: { BadFee: { expected_fee: FEE } } }, 'too large a fee');
'''),
dict(id='C14-reserve-refund-fee', property='C14',
 needs='a withdrawal by a spender (withdraw_from) whose payer holds between amount + fee and amount + 2 fees',
 breaks='a withdrawal on behalf of another must leave one more fee in the account than it costs, so an account holding exactly enough is refused',
 edits=[(ST, '''    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| InsufficientFunds {
            balance: balance.into(),
        },
    )?;
''', '''    // check that the `from` account has enough funds, also for restoring the approval
    let required = match spender {
        Some(_) => amount_with_fee.saturating_add(config::FEE),
        None => amount_with_fee,
    };
    read_state(|state| state.check_debit_from_account(&from, required)).map_err(|balance| {
        InsufficientFunds {
            balance: balance.into(),
        }
    })?;
''')],
 demo='''
const t = new T(), a = acc(A), s = acc(B);
t.dep(a, 10n * FEE); t.appr(a, s, 100n * FEE);
t.wdf(s, a, 8n * FEE);
eq(t.calls().length, 1, 'a withdrawal of everything is sent');
'''),
dict(id='C15-u64-deposit', property='C15',
 needs='a deposit carrying more than 2^64 - 1 cycles',
 breaks='at most 2^64 - 1 of the attached cycles are accepted and credited; the rest is returned although the deposit succeeds',
 edits=[(MA, '''    let cycles_available = msg_cycles_available();
    let amount''', '''    let cycles_available = msg_cycles_available().min(u64::MAX.into());
    let amount''')],
 demo='''
const t = new T(), a = acc(A), x = (1n << 64n) + 12345n;
t.dep(a, FEE); eq(t.bal(a), FEE, 'small deposit');
t.dep(a, x); eq(t.bal(a), x + FEE, 'large deposit');
'''),
]
