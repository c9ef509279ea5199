# Planted bugs, twelfth lot.
ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'; CO = 'cycles-ledger/src/config.rs'
SEEDS = [
dict(id='C20-tip-index-in-two-bytes', property='C20',
 needs='a log of more than 65536 blocks',
 breaks='the certified index of the last block is cut to sixteen bits, so beyond 65536 blocks the tip certificate names an old block',
 edits=[(ST, '''    leb128::write::unsigned(&mut last_block_index_buf, last_block_index).unwrap();
    hash_tree''', '''    let mut rest = last_block_index as u16;
    loop {
        let low = (rest & 0x7f) as u8;
        rest >>= 7;
        last_block_index_buf.push(if rest > 0 { low | 0x80 } else { low });
        if rest == 0 {
            break;
        }
    }
    hash_tree''')],
 demo='''
const n = 65534, t = new T({ balances: Array.from({ length: n }, (_, i) => ({ 0: acc(i % 2 ? A : B), 1: 2n * FEE })), cycles: BigInt(n) * 4n * FEE });
for (let i = 0; i < 5; i++) {
  const at = t.xfer(acc(A), acc(B), 1n).Ok, c = t.w.query('icrc3_get_tip_certificate', []);
  const leb = (x) => { const o = []; do { let b = Number(x & 127n); x >>= 7n; o.push(x ? b | 128 : b); } while (x); return Buffer.from(o).toString('hex'); };
  ok(Buffer.from(c.hash_tree, typeof c.hash_tree === 'string' ? 'hex' : undefined).toString('hex').includes(Buffer.from('last_block_index').toString('hex')), 'the certificate names an index');
  ok(Buffer.from(c.hash_tree, typeof c.hash_tree === 'string' ? 'hex' : undefined).toString('hex').includes(leb(at)), 'the certificate names block ' + at);
}
'''),
dict(id='C06-stale-balance-read', property='C06',
 needs='an account emptied by an operation that credits nobody (a withdrawal, a creation, an approval), while no other account changed since it was last credited or debited',
 breaks='the last balance written is kept at hand for reads, but emptying an account does not update it, so the emptied account still reads its old balance',
 edits=[(ST, '''pub fn balance_of(account: &Account) -> u128 {
    read_state(|s| s.balances.get(&to_account_key(account)).unwrap_or_default())
}''', '''thread_local! {
    // the balance written last: most reads ask for it
    static LAST_WRITTEN: RefCell<Option<(AccountKey, u128)>> = const { RefCell::new(None) };
}

pub fn balance_of(account: &Account) -> u128 {
    let key = to_account_key(account);
    if let Some((_, balance)) = LAST_WRITTEN.with(|l| l.borrow().filter(|(k, _)| *k == key)) {
        return balance;
    }
    read_state(|s| s.balances.get(&key).unwrap_or_default())
}'''), (ST, '''        self.balances.insert(account_key, new_balance);
        Ok(new_balance)
    }

    /// Decreases''', '''        self.balances.insert(account_key, new_balance);
        LAST_WRITTEN.with(|l| *l.borrow_mut() = Some((account_key, new_balance)));
        Ok(new_balance)
    }

    /// Decreases'''), (ST, '''            self.balances.remove(&account_key);
        } else {
            self.balances.insert(account_key, new_balance);
        }''', '''            self.balances.remove(&account_key);
        } else {
            self.balances.insert(account_key, new_balance);
            LAST_WRITTEN.with(|l| *l.borrow_mut() = Some((account_key, new_balance)));
        }''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B);
t.dep(b, 9n * FEE); t.dep(a, 5n * FEE);
t.wd(a, 4n * FEE);
eq(t.bal(a), 0n, 'emptied account');
t.dep(a, 5n * FEE); t.xfer(a, b, 4n * FEE);
eq(t.bal(a), 0n, 'account emptied by a transfer');
'''),
dict(id='C08-dust-dropped', property='C08',
 needs='a spend that leaves less than the fee of the allowance, and a look at the allowance or an expectation of it afterwards',
 breaks='an allowance of less than the fee, which could not pay for another spend, is dropped',
 edits=[(ST, '''    if new_amount == 0 {
        if expiration > 0 {
            s.expiration_queue.remove(&(expiration, key));''', '''    if new_amount < config::FEE {
        if expiration > 0 {
            s.expiration_queue.remove(&(expiration, key));''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B); t.dep(a, 90n * FEE);
t.appr(a, b, 5n * FEE + 7n); t.xfrom(b, a, acc(C), 4n * FEE);
eq(t.alw(a, b).a, 7n, 'what is left of the allowance');
ok(t.appr(a, b, 9n * FEE, { expect: 7n }).Ok !== undefined, 'approval that expects it');
'''),
dict(id='C03-own-spender-dropped', property='C03',
 needs='icrc2_transfer_from by which an owner spends from the very account named as spender',
 breaks='spending from an own account is recorded as a plain transfer, without the spender',
 edits=[(ST, '''    use TransferFromError::*;

    let transaction = Transaction {
        operation: Operation::Transfer {''', '''    use TransferFromError::*;

    // spending from one's own account needs no allowance
    let spender = spender.filter(|spender| *spender != from);

    let transaction = Transaction {
        operation: Operation::Transfer {''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B); t.dep(a, 90n * FEE);
const i = t.xfrom(a, a, b, 5n * FEE).Ok;
ok(S(t.block(i)).includes('pender'), 'block is written');
const j = t.xfer(a, b, 5n * FEE, { cat: t.now }).Ok;
ok(t.xfrom(a, a, b, 5n * FEE, { cat: t.now }).Ok !== undefined, 'the spend after the like transfer is another transaction');
'''),
dict(id='C18-expiry-shared', property='C18',
 needs='two withdrawals on behalf of others in flight at once, under approvals of which one expires and the other does not, the first of which fails after its approval was used up',
 breaks='the expiry of the approval in use is kept in one place for all operations on their way, so a failed withdrawal restores its approval with the expiry of another one',
 edits=[(ST, '''pub async fn withdraw(
    from: Account,
    to: Principal,''', '''thread_local! {
    // the expiry of the approval a withdrawal spends
    static OLD_EXPIRY: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}

pub async fn withdraw(
    from: Account,
    to: Principal,'''), (ST, '''    // check allowance
    let mut old_expires_at = None;
    if let Some(spender) = spender {
        if spender != from {
            let (_, expiry) =
                read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
            if expiry > 0 {
                old_expires_at = Some(expiry);
            }
        }
    }

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| InsufficientFunds {''', '''    // check allowance
    if let Some(spender) = spender {
        if spender != from {
            let (_, expiry) =
                read_state(|state| check_allowance(state, &from, &spender, amount_with_fee, now))?;
            OLD_EXPIRY.set(Some(expiry).filter(|expiry| *expiry > 0));
        }
    }

    // check that the `from` account has enough funds
    read_state(|state| state.check_debit_from_account(&from, amount_with_fee)).map_err(
        |balance| InsufficientFunds {'''), (ST, '''                if let Some(spender) = spender {
                    let approval_still_valid =
                        old_expires_at.map(|expiry| now < expiry).unwrap_or(true);
                    // charge FEE for every block: withdraw attempt, refund, refund approval
                    if spender != from && amount > 2''', '''                if let Some(spender) = spender {
                    let old_expires_at = OLD_EXPIRY.get();
                    let approval_still_valid =
                        old_expires_at.map(|expiry| now < expiry).unwrap_or(true);
                    // charge FEE for every block: withdraw attempt, refund, refund approval
                    if spender != from && amount > 2''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B), c = acc(C); t.dep(a, 90n * FEE); t.dep(c, 90n * FEE);
const e = t.now + 100n * SEC;
t.appr(a, b, 11n * FEE, { exp: e }); t.appr(c, b, 11n * FEE);
t.wdf(b, a, 10n * FEE); const first = t.calls()[0];
t.wdf(b, c, 10n * FEE);
t.answer(first, rej(4));
eq(t.alw(a, b), { a: 8n * FEE, e }, 'restored approval');
'''),
dict(id='C12-future-answers-claim', property='C12',
 needs='an operation dated more than a minute ahead, and a client that sets its clock by the answer',
 breaks='CreatedInFuture states the creation time of the refused operation instead of the time of the ledger',
 edits=[(ST, '''        return Err(CreatedAtTimeValidationError::InTheFuture { ledger_time: now });''', '''        return Err(CreatedAtTimeValidationError::InTheFuture {
            ledger_time: *created_at_time,
        });''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 90n * FEE);
const r = t.xfer(a, acc(B), 1n, { cat: t.now + DRIFT + 1n });
eq(r.Err?.CreatedInFuture?.ledger_time, t.now, 'the time stated');
'''),
dict(id='C36-anonymous-page-of-ten', property='C36',
 needs='more than ten blocks asked for by a caller without an identity',
 breaks='callers without an identity are given ten blocks at a time, whatever they ask for',
 edits=[(ST, '''    let max_length = read_state(|state| state.config.get().max_blocks_per_request);
    let mut blocks''', '''    let mut max_length = read_state(|state| state.config.get().max_blocks_per_request);
    if ic_cdk::api::msg_caller() == Principal::anonymous() {
        max_length = max_length.min(10);
    }
    let mut blocks''')],
 demo='''
const t = new T({ balances: Array.from({ length: 15 }, () => ({ 0: acc(A), 1: FEE })) });
const q = (caller) => t.w.query('icrc3_get_blocks', [[{ start: 0n, length: 20n }]], { caller }).blocks.length;
eq(q(A), 15, 'a user'); eq(q('04'), 15, 'a stranger');
'''),
]
