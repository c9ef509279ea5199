"""usage: quiet.py [Cxx...]  Applies edits that keep the behaviour to a scratch copy of /repo and runs the quick checks
against it: all of them must stay quiet. Run by hand (QUIET=2: the second lot); no check uses it."""
import os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'; LI = 'cycles-ledger/src/lib.rs'; CA = 'cycles-ledger/src/compact_account.rs'; DP = 'depositor/src/main.rs'; FC = 'fake-cmc/src/main.rs'
EDITS = [
# statements reordered: refusals that cannot both apply
(ST, '''    check_duplicate(&transaction)?;

    // check that no account is owned by a denied principal
    if is_denied_account(&from.owner) {
        return Err(transfer_from::denied_owner(from));
    }
    if is_denied_account(&to.owner) {
        return Err(transfer_from::denied_owner(to));
    }
    if let Some(spender) = spender {
        if is_denied_account(&spender.owner) {
            return Err(transfer_from::denied_owner(spender));
        }
    }
''', '''    // check that no account is owned by a denied principal
    if let Some(denied) = [Some(from), Some(to), spender]
        .into_iter()
        .flatten()
        .find(|account| is_denied_account(&account.owner))
    {
        return Err(transfer_from::denied_owner(denied));
    }

    check_duplicate(&transaction)?;
'''),
# loop rewritten
(ST, '''        read_state(|state| {
            for id in start..end_excluded {
                let block = state
                    .blocks
                    .get(id)
                    .unwrap_or_else(|| panic!("Bug: unable to find block at index {}!", id))
                    .0
                    .to_value();
                let block_with_id = BlockWithId {
                    id: Nat::from(id),
                    block,
                };
                blocks.push(block_with_id);
            }
        });
''', '''        blocks.extend((start..end_excluded).map(served_block));
'''),
(ST, '''pub fn get_blocks(args: GetBlocksArgs) -> GetBlocksResult {
''', '''fn served_block(id: u64) -> BlockWithId {
    let stored = read_state(|state| state.blocks.get(id));
    match stored {
        Some(Cbor(block)) => BlockWithId {
            id: Nat::from(id),
            block: block.to_value(),
        },
        None => panic!("Bug: unable to find block at index {}!", id),
    }
}

pub fn get_blocks(args: GetBlocksArgs) -> GetBlocksResult {
'''),
# rewritten as a chain
(ST, '''    read_state(|state| {
        for (account_spender, (allowance_amount, expiration)) in
            state.approvals.range(start_account_spender..)
        {
            if spender.is_some() && account_spender == start_account_spender {
                continue;
            }
            if result.len() >= max_results as usize {
                break;
            }
            let (from_account, to_spender) = to_account_pair(&account_spender);
            if from_account.owner != from.owner {
                break;
            }
            if expiration > 0 && expiration <= now {
                continue;
            }
            let expires_at = match expiration {
                0 => None,
                _ => Some(expiration),
            };
            result.push(Allowance {
                from_account,
                to_spender,
                allowance: Nat::from(allowance_amount),
                expires_at,
            });
        }
    });
    result
''', '''    read_state(|state| {
        result.extend(
            state
                .approvals
                .range(start_account_spender..)
                .skip_while(|(key, _)| spender.is_some() && *key == start_account_spender)
                .take_while(|(key, _)| key.0 .0 == from.owner)
                .filter(|(_, (_, expiration))| *expiration == 0 || *expiration > now)
                .take(max_results as usize)
                .map(|(key, (amount, expiration))| {
                    let (from_account, to_spender) = to_account_pair(&key);
                    Allowance {
                        from_account,
                        to_spender,
                        allowance: Nat::from(amount),
                        expires_at: (expiration > 0).then_some(expiration),
                    }
                }),
        );
    });
    result
'''),
# remove first, then insert
(ST, '''    match s.approvals.get(&key) {
        None => {
            if amount == 0 {
                log!(P0, "[record_approval]: amount was set to 0");
                return;
            }
            if expires_at > 0 {
                s.expiration_queue.insert((expires_at, key), ());
            }
            s.approvals.insert(key, (amount, expires_at));
        }
        Some((_, current_expiration)) => {
            if amount == 0 {
                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                s.approvals.remove(&key);
                return;
            }
            s.approvals.insert(key, (amount, expires_at));
            if expires_at != current_expiration {
                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                if expires_at > 0 {
                    s.expiration_queue.insert((expires_at, key), ());
                }
            }
        }
    }
''', '''    if let Some((_, previous)) = s.approvals.remove(&key) {
        if previous > 0 {
            s.expiration_queue.remove(&(previous, key));
        }
    } else if amount == 0 {
        log!(P0, "[record_approval]: amount was set to 0");
    }
    if amount > 0 {
        s.approvals.insert(key, (amount, expires_at));
        if expires_at > 0 {
            s.expiration_queue.insert((expires_at, key), ());
        }
    }
'''),
# loop rewritten
(ST, '''    for _ in 0..limit {
        match s.expiration_queue.first_key_value() {
            None => break,
            Some((key, _)) if key.0 > now => break,
            Some((key, _value)) => {
                if s.approvals.remove(&key.1).is_none() {
                    log!(P0, "Unable to find the approval for {:?}", key.1,)
                }
                s.expiration_queue.remove(&key);
                pruned += 1;
            }
        }
    }
''', '''    while pruned < limit {
        let Some((key, ())) = s.expiration_queue.first_key_value() else {
            break;
        };
        let (expiry, approval) = &key;
        if now < *expiry {
            break;
        }
        s.expiration_queue.remove(&key);
        if s.approvals.remove(approval).is_none() {
            log!(P0, "Unable to find the approval for {:?}", approval)
        }
        pruned += 1;
    }
'''),
# order of independent effects
(ST, '''    mutate_state(|state| record_approval(state, &from, &spender, amount, expires_at));

    if let Err(err) = mutate_state(|state| state.debit(&from, crate::config::FEE)) {
        let err = err.context(format!("Unable to approve {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    }
''', '''    mutate_state(|state| {
        if let Err(err) = state.debit(&from, crate::config::FEE) {
            ic_cdk::trap(format!(
                "{:#}",
                err.context(format!("Unable to approve {transaction}"))
            ));
        }
        record_approval(state, &from, &spender, amount, expires_at);
    });
'''),
# helper extracted, used by both debits of a spend
(ST, '''    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };

    if let Err(err) = mutate_state(|state| state.credit(&to, amount)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };

    Ok(Nat::from(block_index))
''', '''    mutate_state(|state| {
        must(
            state
                .debit(&from, amount_with_fee)
                .and_then(|_| state.credit(&to, amount)),
            || format!("Unable to perform transfer {transaction}"),
        )
    });

    Ok(Nat::from(block_index))
'''),
(ST, '''#[allow(clippy::too_many_arguments)]
pub fn transfer(
''', '''fn must<T>(result: anyhow::Result<T>, what: impl FnOnce() -> String) -> T {
    result.unwrap_or_else(|err| ic_cdk::trap(format!("{:#}", err.context(what()))))
}

#[allow(clippy::too_many_arguments)]
pub fn transfer(
'''),
# the spender's allowance is used after the debit
(ST, '''    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                let err =
                    anyhow!(err).context(format!("Unable to perform withdraw: {:?}", transaction));
                ic_cdk::trap(format!("{err:#}"));
            };
        }
    }

    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform withdraw: {:?}", transaction));
        ic_cdk::trap(format!("{err:#}"))
    };
''', '''    mutate_state(|state| {
        must(state.debit(&from, amount_with_fee), || {
            format!("Unable to perform withdraw: {:?}", transaction)
        });
        if let Some(spender) = spender.filter(|spender| *spender != from) {
            must(
                use_allowance(state, &from, &spender, amount_with_fee, now)
                    .map_err(|err| anyhow!(err)),
                || format!("Unable to perform withdraw: {:?}", transaction),
            );
        }
    });
'''),
# settings built another way
(ST, '''            settings: arg
                .settings
                .map(|settings| CanisterSettings {
                    controllers: Some(
                        settings
                            .controllers
                            .unwrap_or_else(|| vec![ic_cdk::api::msg_caller()]),
                    ),
                    ..settings
                })
                .or_else(|| {
                    Some(CanisterSettings {
                        controllers: Some(vec![ic_cdk::api::msg_caller()]),
                        ..Default::default()
                    })
                }),
            ..arg
''', '''            settings: {
                let mut settings = arg.settings.unwrap_or_default();
                settings
                    .controllers
                    .get_or_insert_with(|| vec![ic_cdk::api::msg_caller()]);
                Some(settings)
            },
            ..arg
'''),
# fold
(ST, '''        let mut total_supply = 0;
        for (_, balance) in balances.iter() {
            total_supply += balance;
        }
        total_supply
''', '''        balances.iter().map(|(_, balance)| balance).sum()
'''),
# recorded before the certification
(ST, '''        self.cache.phash = Some(hash);
        let tx_hash = b.transaction.hash().unwrap();
        let created_at_time = b.transaction.created_at_time;
        self.blocks
            .append(&Cbor(b))
            .expect("failed to append a block");
''', '''        let tx_hash = b.transaction.hash().unwrap();
        let created_at_time = b.transaction.created_at_time;
        self.blocks
            .append(&Cbor(b))
            .expect("failed to append a block");
        self.cache.phash = Some(hash);
'''),
(ST, '''        if let Some(ts) = created_at_time {
            // Add block index to the list of transactions and set the hash as its key
            self.transaction_hashes
                .insert(tx_hash, (self.blocks.len() - 1, None));
            self.transaction_timestamps
                .insert((ts, self.blocks.len() - 1), ());
        }
''', '''        if let Some(ts) = created_at_time {
            self.transaction_timestamps.insert((ts, block_idx), ());
            // Add block index to the list of transactions and set the hash as its key
            self.transaction_hashes.insert(tx_hash, (block_idx, None));
        }
'''),
# comparisons turned round
(ST, '''    if created_at_time
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
    {
        return Err(CreatedAtTimeValidationError::TooOld);
    }

    if created_at_time > &now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64) {
        return Err(CreatedAtTimeValidationError::InTheFuture { ledger_time: now });
    }
    Ok(())
''', '''    if *created_at_time > now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64) {
        return Err(CreatedAtTimeValidationError::InTheFuture { ledger_time: now });
    }
    if is_before_transaction_window(*created_at_time, now) {
        return Err(CreatedAtTimeValidationError::TooOld);
    }
    Ok(())
'''),
(ST, '''        if pruned >= limit || !is_before_transaction_window(timestamp, now) {
            return;
        }
        s.transaction_timestamps.remove(&(timestamp, block_idx));
        pruned += 1;
''', '''        if !is_before_transaction_window(timestamp, now) || pruned == limit {
            break;
        }
        pruned += 1;
        s.transaction_timestamps.remove(&(timestamp, block_idx));
'''),
# a new stable memory region, unused so far
(ST, '''const CONFIG_MEMORY_ID: MemoryId = MemoryId::new(8);
''', '''const CONFIG_MEMORY_ID: MemoryId = MemoryId::new(8);
/// Reserved for future use.
pub const RESERVED_MEMORY_ID: MemoryId = MemoryId::new(9);
'''),
# other messages
(ST, '"self approval is not allowed"', '"an owner cannot approve an account of their own"'),
(ST, '            message: "Approval has expired".into(),', '            message: "The approval has expired".into(),'),
(ST, '"Cannot deposit 0 cycles (amount: {}, cycles ledger fee: {})"', '"A deposit of {} cycles leaves nothing after the fee of {}"'),
# conversion in one place
(MA, '''    let suggested_fee = match fee {
        Some(fee) => match fee.0.to_u128() {
            None => {
                return Err(TransferFromError::BadFee {
                    expected_fee: Nat::from(config::FEE),
                })
            }
            Some(fee) => Some(fee),
        },
        None => None,
    };

    let Some(amount)''', '''    let Ok(suggested_fee) = fee.map(|fee| fee.0.to_u128().ok_or(())).transpose() else {
        return Err(TransferFromError::BadFee {
            expected_fee: Nat::from(config::FEE),
        });
    };

    let Some(amount)'''),
(MA, '''    let cycles_available = msg_cycles_available();
    let amount = msg_cycles_accept(cycles_available);

    match storage::deposit(arg.to, amount, arg.memo, ic_cdk::api::time()) {
        Ok(res) => res,
        Err(err) => ic_cdk::trap(err.to_string()),
    }
''', '''    let now = ic_cdk::api::time();
    let amount = msg_cycles_accept(msg_cycles_available());
    storage::deposit(arg.to, amount, arg.memo, now)
        .unwrap_or_else(|err| ic_cdk::trap(format!("deposit refused: {err:#}")))
'''),
(MA, '''            ic_metrics_encoder::MetricsEncoder::new(vec![], ic_cdk::api::time() as i64 / 1_000_000);
''', '''            ic_metrics_encoder::MetricsEncoder::new(Vec::with_capacity(4096), (ic_cdk::api::time() / 1_000_000) as i64);
'''),
(DP, '''    let cycles = arg.cycles;
    let arg = cycles_ledger::endpoints::DepositArg {
        to: arg.to,
        memo: arg.memo,
    };
''', '''    let DepositArg { cycles, to, memo } = arg;
    let arg = cycles_ledger::endpoints::DepositArg { to, memo };
'''),
(FC, '''    if let Some(error) = next_error {
        match error {
            CmcCreateCanisterError::Refunded { refund_amount, .. } => {
                msg_cycles_accept(cycles - refund_amount);
            }
            CmcCreateCanisterError::RefundFailed { .. } => {
                let _ = msg_cycles_accept(cycles);
            }
        };
        return Err(error);
    };
''', '''    if let Some(error) = next_error {
        let kept = match &error {
            CmcCreateCanisterError::Refunded { refund_amount, .. } => cycles - refund_amount,
            CmcCreateCanisterError::RefundFailed { .. } => cycles,
        };
        msg_cycles_accept(kept);
        return Err(error);
    }
'''),
]
EDITS2 = [
# the listing as a chain with the page cut off at the end
(ST, '''        for (account_spender, (allowance_amount, expiration)) in
            state.approvals.range(start_account_spender..)
        {
            if spender.is_some() && account_spender == start_account_spender {
                continue;
            }
            if result.len() >= max_results as usize {
                break;
            }
            let (from_account, to_spender) = to_account_pair(&account_spender);
            if from_account.owner != from.owner {
                break;
            }
            if expiration > 0 && expiration <= now {
                continue;
            }
            let expires_at = match expiration {
                0 => None,
                _ => Some(expiration),
            };
            result.push(Allowance {
                from_account,
                to_spender,
                allowance: Nat::from(allowance_amount),
                expires_at,
            });
        }
''', '''        let in_force = |expiration: u64| expiration == 0 || now < expiration;
        result.extend(
            state
                .approvals
                .range(start_account_spender..)
                .take_while(|(((owner, _), _), _)| *owner == from.owner)
                .filter(|(pair, _)| spender.is_none() || *pair != start_account_spender)
                .filter(|(_, (_, expiration))| in_force(*expiration))
                .map(|(pair, (allowance_amount, expiration))| {
                    let (from_account, to_spender) = to_account_pair(&pair);
                    Allowance {
                        from_account,
                        to_spender,
                        allowance: Nat::from(allowance_amount),
                        expires_at: (expiration != 0).then_some(expiration),
                    }
                })
                .take(max_results as usize),
        );
'''),
# a log line for every accepted operation
(ST, '''    let _ = mutate_state(|state| state.emit_block(block));
    let block_index = read_state(|state| state.blocks.len() - 1);
''', '''    let summary = block.transaction.to_string();
    let block_index = mutate_state(|state| {
        state.emit_block(block);
        state.blocks.len() - 1
    });
    log!(P1, "[process_transaction] {}: {}", block_index, summary);
'''),
# refund: credited first, recorded after
(ST, '''    let block_index = process_transaction(transaction.clone(), now)?;

    if let Err(err) = mutate_state(|state| state.credit(&acc, amount)) {
        let err = err.context(format!("Unable to reimburse withdraw: {transaction:?}"));
        ic_cdk::trap(format!("{err:#}"))
    };

    prune(now);

    Ok(block_index)
''', '''    if let Err(err) = mutate_state(|state| state.credit(&acc, amount)) {
        let err = err.context(format!("Unable to reimburse withdraw: {transaction:?}"));
        ic_cdk::trap(format!("{err:#}"))
    };
    let block_index = process_transaction(transaction, now)
        .unwrap_or_else(|err| ic_cdk::trap(format!("Unable to reimburse caller: {err}")));

    prune(now);

    Ok(block_index)
'''),
# the approval: debit first
(ST, '''    mutate_state(|state| record_approval(state, &from, &spender, amount, expires_at));

    if let Err(err) = mutate_state(|state| state.debit(&from, crate::config::FEE)) {
        let err = err.context(format!("Unable to approve {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    }
''', '''    mutate_state(|state| {
        if let Err(err) = state.debit(&from, crate::config::FEE) {
            let err = err.context(format!("Unable to approve {transaction}"));
            ic_cdk::trap(format!("{err:#}"));
        }
        record_approval(state, &from, &spender, amount, expires_at);
    });
'''),
# approval: the checks in another order where both cannot apply at once in the answer's meaning
(ST, '''    // check that the expiration is in the future
    if expires_at.unwrap_or(REMOTE_FUTURE) <= now {
        return Err(ApproveError::Expired { ledger_time: now });
    }

    // sanity check that the total_supply won't underflow
    read_state(|state| state.check_total_supply_decrease(config::FEE))
        .with_context(|| {
            format!(
                "Unable to approve''', '''    // check that the expiration is in the future
    match expires_at {
        Some(expires_at) if expires_at <= now => {
            return Err(ApproveError::Expired { ledger_time: now })
        }
        _ => (),
    }

    // sanity check that the total_supply won't underflow
    read_state(|state| state.check_total_supply_decrease(config::FEE))
        .with_context(|| {
            format!(
                "Unable to approve'''),
# supply kept beside the balances with explicit matches
(ST, '''        for (_, balance) in balances.iter() {
            total_supply += balance;
        }
        total_supply
''', '''        let mut entries = balances.iter();
        while let Some((_, balance)) = entries.next() {
            total_supply = u128::checked_add(total_supply, balance)
                .expect("Bug: the total supply exceeds 128 bits");
        }
        total_supply
'''),
# a helper for the two tables of executed transactions
(ST, '''        if let Some(ts) = created_at_time {
            // Add block index to the list of transactions and set the hash as its key
            self.transaction_hashes
                .insert(tx_hash, (self.blocks.len() - 1, None));
            self.transaction_timestamps
                .insert((ts, self.blocks.len() - 1), ());
        }

        hash
    }
''', '''        if let Some(created_at_time) = created_at_time {
            self.remember(tx_hash, created_at_time, block_idx);
        }

        hash
    }

    /// Add block index to the list of transactions and set the hash as its key
    fn remember(&mut self, tx_hash: Hash, created_at_time: u64, block_idx: u64) {
        self.transaction_timestamps
            .insert((created_at_time, block_idx), ());
        self.transaction_hashes.insert(tx_hash, (block_idx, None));
    }
'''),
# the window as one range
(ST, '''    let Some(created_at_time) = created_at_time else {
        return Ok(());
    };
    if created_at_time
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
    {
        return Err(CreatedAtTimeValidationError::TooOld);
    }

    if created_at_time > &now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64) {
        return Err(CreatedAtTimeValidationError::InTheFuture { ledger_time: now });
    }
    Ok(())
''', '''    match *created_at_time {
        None => Ok(()),
        Some(created_at_time) if is_before_transaction_window(created_at_time, now) => {
            Err(CreatedAtTimeValidationError::TooOld)
        }
        Some(created_at_time)
            if created_at_time.saturating_sub(now) > config::PERMITTED_DRIFT.as_nanos() as u64 =>
        {
            Err(CreatedAtTimeValidationError::InTheFuture { ledger_time: now })
        }
        Some(_) => Ok(()),
    }
'''),
# names read through one helper
(MA, '''#[query]
fn icrc1_total_supply() -> Nat {
    Nat::from(read_state(|state| state.total_supply()))
}
''', '''fn supply() -> u128 {
    read_state(State::total_supply)
}

#[query]
fn icrc1_total_supply() -> Nat {
    supply().into()
}
'''),
(MA, '''    if req.path() == "/metrics" {
        let mut writer''', '''    let path = req.path().to_string();
    if path == "/metrics" {
        let mut writer'''),
(MA, '''    let from_account = match arg.from_account {
        Some(from_account) => from_account,
        None => Account {
            owner: ic_cdk::api::msg_caller(),
            subaccount: None,
        },
    };
    let max_results = arg
        .take
        .map(|take| take.0.to_u64().unwrap_or(config::MAX_TAKE_ALLOWANCES))
        .map(|take| std::cmp::min(take, config::MAX_TAKE_ALLOWANCES))
        .unwrap_or(config::MAX_TAKE_ALLOWANCES);
''', '''    let from_account = arg
        .from_account
        .unwrap_or_else(|| Account::from(ic_cdk::api::msg_caller()));
    let max_results = match arg.take {
        Some(take) if take < config::MAX_TAKE_ALLOWANCES => {
            take.0.to_u64().expect("Bug: a small number fits")
        }
        _ => config::MAX_TAKE_ALLOWANCES,
    };
'''),
# the configuration changed once
(MA, '''            if let Some(max_blocks_per_request) = upgrade_args.max_blocks_per_request {
                mutate_config(|config| {
                    config.max_blocks_per_request = max_blocks_per_request;
                })
            }
            if let Some(change_index_id) = upgrade_args.change_index_id {
                mutate_config(|config| {
                    config.index_id = change_index_id.into();
                })
            }
''', '''            mutate_config(|config| {
                if let Some(max_blocks_per_request) = upgrade_args.max_blocks_per_request {
                    config.max_blocks_per_request = max_blocks_per_request;
                }
                if let Some(change_index_id) = upgrade_args.change_index_id {
                    config.index_id = change_index_id.into();
                }
            })
'''),
# a metric more
(MA, '''    w.encode_gauge(
        "cycles_ledger_total_supply",
''', '''    w.encode_gauge(
        "cycles_ledger_max_blocks_per_request",
        read_config(|config| config.max_blocks_per_request) as f64,
        "Largest number of blocks in an answer.",
    )?;
    w.encode_gauge(
        "cycles_ledger_total_supply",
'''),
(CA, '''        let mut components = vec![ByteBuf::from(acc.owner.as_slice().to_vec())];
        if let Some(sub) = acc.subaccount {
            components.push(ByteBuf::from(sub.to_vec()))
        }
        CompactAccount(components)
''', '''        let owner = ByteBuf::from(acc.owner.as_slice());
        CompactAccount(match acc.subaccount {
            None => vec![owner],
            Some(subaccount) => vec![owner, ByteBuf::from(subaccount)],
        })
'''),
(DP, '''    let result: DepositResult = Call::unbounded_wait(ledger_id, "deposit")
        .with_arg(arg)
        .with_cycles(cycles)
        .await
        .expect("Unable to call deposit")
        .candid()
        .expect("Unable to decode deposit result");
    result
''', '''    let call = Call::unbounded_wait(ledger_id, "deposit")
        .with_arg(arg)
        .with_cycles(cycles);
    match call.await {
        Ok(response) => response.candid().expect("Unable to decode deposit result"),
        Err(error) => panic!("Unable to call deposit: {error}"),
    }
'''),
(FC, '''    let next_error = STATE.with(|s| {
        let mut state = s.borrow_mut();
        state.last_create_canister_args = Some(arg.clone());
        state.fail_next_create_canister_with.take()
    });
''', '''    STATE.with(|s| s.borrow_mut().last_create_canister_args = Some(arg.clone()));
    let next_error = STATE.with(|s| std::mem::take(&mut s.borrow_mut().fail_next_create_canister_with));
'''),
]
# A third lot: code moved, merged, reordered; a redundant cleanup less; a new source file.
EDITS3 = [
(LI, '''pub mod logs;
''', '''pub mod limits;
pub mod logs;
'''),
('cycles-ledger/src/limits.rs', None, '''//! Which creation times are still of interest.
use crate::config;

/// Nanoseconds for which a creation time stays acceptable.
pub const LIFETIME: u64 =
    (config::TRANSACTION_WINDOW.as_nanos() + config::PERMITTED_DRIFT.as_nanos()) as u64;

/// Whether a transaction created at `timestamp` has left the window.
pub fn is_before_transaction_window(timestamp: u64, now: u64) -> bool {
    timestamp.saturating_add(LIFETIME) < now
}

/// Whether a transaction created at `timestamp` lies too far ahead.
pub fn is_beyond_permitted_drift(timestamp: u64, now: u64) -> bool {
    timestamp > now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
}
'''),
(ST, '''fn is_before_transaction_window(timestamp: u64, now: u64) -> bool {
    timestamp
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
}
''', '''fn is_before_transaction_window(timestamp: u64, now: u64) -> bool {
    crate::limits::is_before_transaction_window(timestamp, now)
}
'''),
(ST, '''    if created_at_time > &now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64) {
''', '''    if crate::limits::is_beyond_permitted_drift(*created_at_time, now) {
'''),
(ST, '''            Ok(fee_block) => {
                prune(now);
                if let Some(spender) = spender {''', '''            Ok(fee_block) => {
                if let Some(spender) = spender {'''),
(ST, '''                Ok(refund_block) => {
                    prune(now);
                    if let Some(spender) = spender {''', '''                Ok(refund_block) => {
                    if let Some(spender) = spender {'''),
(ST, '''    let block_index = mint(to, amount_to_mint, memo, now)?;

    prune(now);

    Ok(DepositResult {
        block_index: Nat::from(block_index),
        balance: Nat::from(balance_of(&to)),
    })
''', '''    let block_index = Nat::from(mint(to, amount_to_mint, memo, now)?);
    let balance = Nat::from(balance_of(&to));
    prune(now);
    Ok(DepositResult {
        block_index,
        balance,
    })
'''),
(ST, '''    let expires_at = expires_at.unwrap_or(0);

    match s.approvals.get(&key) {
        None => {
            if amount == 0 {
                log!(P0, "[record_approval]: amount was set to 0");
                return;
            }
            if expires_at > 0 {
                s.expiration_queue.insert((expires_at, key), ());
            }
            s.approvals.insert(key, (amount, expires_at));
        }
        Some((_, current_expiration)) => {
            if amount == 0 {
                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                s.approvals.remove(&key);
                return;
            }
            s.approvals.insert(key, (amount, expires_at));
            if expires_at != current_expiration {
                if current_expiration > 0 {
                    s.expiration_queue.remove(&(current_expiration, key));
                }
                if expires_at > 0 {
                    s.expiration_queue.insert((expires_at, key), ());
                }
            }
        }
    }
''', '''    // the old approval goes, whatever it was
    match s.approvals.remove(&key) {
        Some((_, expiration)) if expiration > 0 => {
            s.expiration_queue.remove(&(expiration, key));
        }
        Some(_) => {}
        None if amount == 0 => log!(P0, "[record_approval]: nothing to revoke"),
        None => {}
    }
    if amount == 0 {
        return;
    }
    let expiration = expires_at.unwrap_or_default();
    s.approvals.insert(key, (amount, expiration));
    if expiration > 0 {
        s.expiration_queue.insert((expiration, key), ());
    }
'''),
(ST, '''        if new_balance == 0 {
            self.balances.remove(&account_key);
        } else {
            self.balances.insert(account_key, new_balance);
        }
        Ok(new_balance)
''', '''        match new_balance {
            0 => self.balances.remove(&account_key),
            rest => self.balances.insert(account_key, rest),
        };
        Ok(new_balance)
'''),
(ST, '''    let (current_allowance, current_expiry) = allowance(&from, &spender, now);
    let expires_at = if current_expiry > 0 {
        Some(current_expiry)
    } else if current_allowance > 0 {
        // the current approval does not expire
        None
    } else {
        old_expires_at
    };
''', '''    let (current_allowance, expires_at) = match allowance(&from, &spender, now) {
        (0, 0) => (0, old_expires_at),
        (left, 0) => (left, None),
        (left, expiry) => (left, Some(expiry)),
    };
'''),
(ST, '''        let hash = b.clone().hash();
        self.cache.phash = Some(hash);
        let tx_hash = b.transaction.hash().unwrap();
        let created_at_time = b.transaction.created_at_time;
        self.blocks
            .append(&Cbor(b))
            .expect("failed to append a block");

        // Change the certified data to point to the new block at the end of the list of blocks
        let block_idx = self.blocks.len() - 1;
        populate_last_block_hash_and_hash_tree(&mut self.cache.hash_tree, block_idx, hash);
        certified_data_set(self.root_hash());

        if let Some(ts) = created_at_time {
            // Add block index to the list of transactions and set the hash as its key
            self.transaction_hashes
                .insert(tx_hash, (self.blocks.len() - 1, None));
            self.transaction_timestamps
                .insert((ts, self.blocks.len() - 1), ());
        }

        hash
''', '''        let block_idx = self.blocks.len();
        if let Some(ts) = b.transaction.created_at_time {
            // Add block index to the list of transactions and set the hash as its key
            self.transaction_timestamps.insert((ts, block_idx), ());
            self.transaction_hashes
                .insert(b.transaction.hash().unwrap(), (block_idx, None));
        }
        let block = Cbor(b);
        self.blocks
            .append(&block)
            .expect("failed to append a block");
        let hash = block.0.hash();
        self.cache.phash = Some(hash);

        // Change the certified data to point to the new block at the end of the list of blocks
        populate_last_block_hash_and_hash_tree(&mut self.cache.hash_tree, block_idx, hash);
        certified_data_set(self.cache.hash_tree.root_hash());
        hash
'''),
(ST, '''    // the state is reset to a valid one.

    if let Some(spender) = spender {
        if spender != from {
            if let Err(err) =
                mutate_state(|state| use_allowance(state, &from, &spender, amount_with_fee, now))
            {
                ic_cdk::trap(format!("Unable to perform transfer {transaction}: {err}"));
            }
        }
    }

    if let Err(err) = mutate_state(|state| state.debit(&from, amount_with_fee)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };

    if let Err(err) = mutate_state(|state| state.credit(&to, amount)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    };
''', '''    // the state is reset to a valid one.

    let outcome = mutate_state(|state| -> anyhow::Result<()> {
        state.debit(&from, amount_with_fee)?;
        state.credit(&to, amount)?;
        match spender {
            Some(spender) if spender != from => {
                use_allowance(state, &from, &spender, amount_with_fee, now)
                    .map_err(|err| anyhow!(err.to_string()))
            }
            _ => Ok(()),
        }
    });
    if let Err(err) = outcome {
        let err = err.context(format!("Unable to perform transfer {transaction}"));
        ic_cdk::trap(format!("{err:#}"));
    }
'''),
(ST, '''    (account.owner, *account.effective_subaccount())
''', '''    (account.owner, account.subaccount.unwrap_or([0; 32]))
'''),
(MA, '''    let from_account = match arg.from_account {
        Some(from_account) => from_account,
        None => Account {
            owner: ic_cdk::api::msg_caller(),
            subaccount: None,
        },
    };
    let max_results = arg
        .take
        .map(|take| take.0.to_u64().unwrap_or(config::MAX_TAKE_ALLOWANCES))
        .map(|take| std::cmp::min(take, config::MAX_TAKE_ALLOWANCES))
        .unwrap_or(config::MAX_TAKE_ALLOWANCES);
''', '''    let max_results = match arg.take.as_ref().and_then(|take| take.0.to_u64()) {
        Some(take) if take < config::MAX_TAKE_ALLOWANCES => take,
        _ => config::MAX_TAKE_ALLOWANCES,
    };
    let from_account = arg
        .from_account
        .unwrap_or_else(|| Account::from(ic_cdk::api::msg_caller()));
'''),
(MA, '''    w.encode_gauge(
        "cycles_ledger_number_of_blocks",
        blocks.len() as f64,
        "Total number of blocks stored in the stable memory.",
    )?;
    w.encode_gauge(
        "cycles_ledger_number_of_balances",
        balances.len() as f64,
        "Total number of balances stored in the stable memory.",
    )?;
''', '''    for (name, value, help) in [
        (
            "cycles_ledger_number_of_balances",
            balances.len(),
            "Total number of balances stored in the stable memory.",
        ),
        (
            "cycles_ledger_number_of_blocks",
            blocks.len(),
            "Total number of blocks stored in the stable memory.",
        ),
    ] {
        w.encode_gauge(name, value as f64, help)?;
    }
'''),
(MA, '''    let cycles_available = msg_cycles_available();
    let amount = msg_cycles_accept(cycles_available);

    match storage::deposit(arg.to, amount, arg.memo, ic_cdk::api::time()) {
        Ok(res) => res,
        Err(err) => ic_cdk::trap(err.to_string()),
    }
''', '''    let now = ic_cdk::api::time();
    let amount = msg_cycles_accept(u128::MAX);
    storage::deposit(arg.to, amount, arg.memo, now).unwrap_or_else(|err| ic_cdk::trap(err.to_string()))
'''),
]
EDITS = {'2': EDITS2, '3': EDITS3}.get(os.environ.get('QUIET'), EDITS)
W = os.environ.get('SEEDWORK', '/tmp/quietwork'); os.makedirs(W, exist_ok=True); r = W + '/repo'; shutil.rmtree(r, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', '/repo', r])
for path, old, new in EDITS:
    if old is None: open(f'{r}/{path}', 'x').write(new); continue
    t = open(f'{r}/{path}').read(); assert t.count(old) == 1, (t.count(old), old); open(f'{r}/{path}', 'w').write(t.replace(old, new))
bad = 0
for p in [a for a in sys.argv[1:] if a[0] == 'C'] or [f'C{i:02}' for i in range(1, 37)]:
    t = time.time(); c = subprocess.run(['node', V + '/run.mjs', p, '--tier', 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env={**os.environ, 'VP_REPO': r, 'VERIF_BUILD': W + '/b', 'VERIF_EVIDENCE': W + '/ev'})
    print(p, c.returncode, f'{time.time()-t:.0f}s', c.stdout.strip().split('\n')[-1], flush=True)
    if c.returncode: bad = 1; print(c.stdout[-1500:])
sys.exit(bad)
