# Planted bugs, fifth lot: sizes beyond a page, unusual principals, mixed versions, refusals with side effects.
ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'; LI = 'cycles-ledger/src/lib.rs'; CO = 'cycles-ledger/src/config.rs'; ME = 'cycles-ledger/src/memo.rs'; CA = 'cycles-ledger/src/compact_account.rs'; DP = 'depositor/src/main.rs'; FC = 'fake-cmc/src/main.rs'
MANY = '''
const accts = []; for (let i = 0; i < 1100; i++) accts.push({ 0: acc('0000000000' + (i + 4096).toString(16).padStart(6, '0') + '0101'), 1: FEE });
'''
SEEDS = [
dict(id='C24-dedup-key-changed', property='C24',
 needs='a transaction with a creation time executed by the released version and repeated after the upgrade',
 breaks='the key under which transactions are remembered is computed from another encoding, so transactions executed before the upgrade are no longer duplicates',
 edits=[(ST, '''        let value = ciborium::Value::serialized(self).context(format!(
            "Bug: unable to convert Transaction to Ciborium Value. Transaction: {:?}",
            self
        ))?;
        ciborium_to_generic_value(&value.clone(), 0)
            .map(|v| v.hash())
            .context(format!(
                "Bug: unable to convert Ciborium Value to Value. Transaction: {:?}, Value: {:?}",
                self, value
            ))
''', '''        let value = ciborium::Value::serialized(self).context(format!(
            "Bug: unable to convert Transaction to Ciborium Value. Transaction: {:?}",
            self
        ))?;
        ciborium_to_generic_value(&value, 0)
            .map(|v| Value::Array(vec![Value::text("tx"), v]).hash())
            .context(format!(
                "Bug: unable to convert Ciborium Value to Value. Transaction: {:?}, Value: {:?}",
                self, value
            ))
''')],
 demo='''
import { RELEASED, CURRENT } from './lib.mjs';
const t = new T({ module: RELEASED() }), a = acc(A), b = acc(B);
t.dep(a, 50n * FEE); const cat = t.now;
const first = t.xfer(a, b, 2n * FEE, { cat });
t.w.upgrade({ Upgrade: null }, { module: CURRENT });
const again = t.xfer(a, b, 2n * FEE, { cat });
ok(again.Err && again.Err.Duplicate && again.Err.Duplicate.duplicate_of === first.Ok, 'what was executed before the upgrade is a duplicate after it');
eq(t.bal(b), 2n * FEE, 'the recipient was paid once');
'''),
dict(id='C11-large-amounts-alike', property='C11',
 needs='two transactions with the same creation time whose amounts differ by a multiple of 2^64',
 breaks='amounts are shortened to 64 bits in the key under which transactions are remembered, so different large transactions count as duplicates',
 edits=[(ST, '''    pub fn hash(&self) -> anyhow::Result<Hash> {
        let value = ciborium::Value::serialized(self)''', '''    pub fn hash(&self) -> anyhow::Result<Hash> {
        let mut key = FlattenedTransaction::from(self.clone());
        key.amount &= u64::MAX as u128;
        let value = ciborium::Value::serialized(&key)''')],
 demo='''
const t = new T({ cycles: 1n << 90n }), a = acc(A), b = acc(B); t.dep(a, 1n << 80n); const cat = t.now;
ok(t.xfer(a, b, 7n * FEE, { cat }).Ok, 'first'); ok(t.xfer(a, b, 7n * FEE + (1n << 64n), { cat }).Ok, 'another, larger transaction');
ok(t.xfer(a, b, 7n * FEE, { cat }).Err.Duplicate, 'a repeat');
'''),
dict(id='C02-last-expiry-means-never', property='C02',
 needs='an approval whose expiry is the very last instant',
 breaks='an approval expiring at the last representable instant is kept as one without expiry',
 edits=[(ST, '    let expires_at = expires_at.unwrap_or(0);\n', '    let expires_at = expires_at\n        .filter(|expiry| *expiry != REMOTE_FUTURE)\n        .unwrap_or(0);\n')],
 demo='''
const t = new T(), a = acc(A), s = acc(B); t.dep(a, 50n * FEE); t.appr(a, s, 5n * FEE, { exp: U64 });
eq(t.alw(a, s).e, U64, 'expiry');
'''),
dict(id='C25-half-share', property='C25',
 needs='more than fifty approvals expired at one time, then one accepted operation',
 breaks='each operation cleans up only fifty expired approvals',
 edits=[(CO, 'pub const APPROVE_PRUNE_LIMIT: usize = 100;', 'pub const APPROVE_PRUNE_LIMIT: usize = 50;')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 500n * FEE); const e = t.now + SEC;
for (let i = 0; i < 120; i++) t.appr(a, acc('0000000000' + (i + 256).toString(16).padStart(6, '0') + '0101'), FEE, { exp: e });
t.pass(2n * SEC); t.dep(a, FEE);
eq(t.w.metrics().number_of_approvals, 20, 'approvals left');
'''),
dict(id='C05-refused-cleans-up', property='C05',
 needs='a refused transfer while expired approvals or old transactions wait to be cleaned up',
 breaks='refused transfers already clean up, so a refused call changes what the ledger keeps',
 edits=[(MA, '''    let now = ic_cdk::api::time();
    let block_index = storage::transfer(
        from,''', '''    let now = ic_cdk::api::time();
    prune(now);
    let block_index = storage::transfer(
        from,''')],
 demo='''
const t = new T(), a = acc(A), s = acc(B); t.dep(a, 50n * FEE); t.xfer(a, s, FEE, { cat: t.now }); t.pass(WINDOW + 2n * DRIFT);
const n = t.w.metrics().number_of_transaction_hashes; eq(n, 1, 'transactions remembered'); ok(t.xfer(a, s, 500n * FEE).Err.InsufficientFunds, 'refused');
eq(t.w.metrics().number_of_transaction_hashes, n, 'transactions remembered after the refusal');
'''),
dict(id='C16-withdraw-to-itself', property='C16',
 needs='a withdrawal to the ledger itself',
 breaks='withdrawing to the ledger canister itself is answered without sending the cycles',
 edits=[(ST, '''    // 2. call deposit_cycles on the management canister
    let deposit_cycles_result =''', '''    if to == ic_cdk::api::canister_self() {
        // the cycles are already here
        return Ok(Nat::from(block_index));
    }

    // 2. call deposit_cycles on the management canister
    let deposit_cycles_result =''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE); t.wd(a, 5n * FEE, { to: L.LEDGER_ID });
eq(t.calls().length, 1, 'requests sent');
'''),
dict(id='C26-denied-by-account', property='C26',
 needs='a transfer or approval naming a subaccount of the management canister',
 breaks='only the default account of the management canister is refused',
 edits=[(ST, '''    if is_denied_account(&to.owner) {
        return Err(transfer_from::denied_owner(to));''', '''    if is_denied_account(&to.owner) && to.subaccount.is_none() {
        return Err(transfer_from::denied_owner(to));''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
ok(t.xfer(a, acc(L.MGMT), FEE).Err, 'default account refused'); ok(t.xfer(a, acc(L.MGMT, S1), FEE).Err, 'subaccount refused');
'''),
dict(id='C26-denied-spender-only-if-other', property='C26',
 needs='a call made by the management canister as a spender',
 breaks='a spender owned by the management canister is not refused when it spends to another account of its own',
 edits=[(ST, '''    if is_denied_account(&spender.owner) {
        return Err(approve::denied_owner(spender));
    }
''', '''    if is_denied_account(&spender.owner) && amount > 0 {
        return Err(approve::denied_owner(spender));
    }
''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
ok(t.appr(a, acc(L.MGMT), FEE).Err, 'approval refused'); ok(t.appr(a, acc(L.MGMT), 0n).Err, 'approval of nothing refused');
'''),
dict(id='C23-listing-default-caller', property='C23',
 needs='listing without an account while having allowances',
 breaks='listing allowances without naming an account lists those of the anonymous principal',
 edits=[(MA, '''        None => Account {
            owner: ic_cdk::api::msg_caller(),
            subaccount: None,
        },
    };
    let max_results''', '''        None => Account::from(Principal::anonymous()),
    };
    let max_results''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE); t.appr(a, acc(B), FEE);
eq(t.w.query('icrc103_get_allowances', [{ from_account: null, prev_spender: null, take: null }], { caller: A }).Ok.length, 1, 'allowances of the caller');
'''),
dict(id='C29-overflow-skipped', property='C29',
 needs='installation with initial balances whose total exceeds the largest amount',
 breaks='initial balances that do not fit are skipped instead of failing the installation',
 edits=[(MA, '''                    storage::mint(*account, *amount, None, ic_cdk::api::time())
                        .expect("Failed to mint initial balance");''', '''                    if let Err(err) =
                        storage::mint(*account, *amount, None, ic_cdk::api::time())
                    {
                        ic_cdk::println!("Failed to mint initial balance: {err}");
                    }''')],
 demo='''
const t = new T({ balances: [{ 0: acc(A), 1: U128 - 5n }, { 0: acc(B), 1: 6n }], cycles: U128 });
eq(t.installed, false, 'installation accepted');
'''),
dict(id='C30-last-arguments-of-successes', property='C30',
 needs='asking for the arguments of the last creation after a scripted failure',
 breaks='the stand-in reports the arguments of the last creation that was not told to fail',
 edits=[(FC, '''        let mut state = s.borrow_mut();
        state.last_create_canister_args = Some(arg.clone());
        state.fail_next_create_canister_with.take()''', '''        let mut state = s.borrow_mut();
        let next_error = state.fail_next_create_canister_with.take();
        if next_error.is_none() || state.last_create_canister_args.is_none() {
            state.last_create_canister_args = Some(arg.clone());
        }
        next_error''')],
 demo='''
import { cmc } from './comp.mjs';
const c = cmc(); c.create(200_000_000_000n); c.fail({ RefundFailed: { create_error: 'x', refund_error: 'y' } }); c.create(200_000_000_000n, { Filter: { subnet_type: 'fiduciary' } });
eq(c.last().subnet_selection, { Filter: { subnet_type: 'fiduciary' } }, 'arguments of the last creation');
'''),
dict(id='C30-large-deposits', property='C30',
 needs='a deposit of more than 2^64 cycles through the depositor',
 breaks='the depositor attaches at most 2^64 - 1 cycles',
 edits=[(DP, '        .with_cycles(cycles)', '        .with_cycles(cycles.min(u64::MAX as u128))')],
 demo='''
import { depositCall } from './comp.mjs';
eq(depositCall(null, 5n).cycles, 5n, 'few cycles'); eq(depositCall(null, 10n ** 20n).cycles, 10n ** 20n, 'many cycles');
'''),
dict(id='C01-supply-of-a-thousand', property='C01',
 needs='more than a thousand accounts with cycles at an upgrade',
 breaks='after an upgrade the supply is summed over the first thousand accounts only',
 edits=[(ST, '''        for (_, balance) in balances.iter() {
            total_supply += balance;
        }''', '''        for (_, balance) in balances.iter().take(1_000) {
            total_supply += balance;
        }''')],
 demo=MANY + '''
const t = new T({ balances: accts, cycles: 10000n * FEE }); t.w.upgrade({ Upgrade: null });
eq(t.supply(), 1100n * FEE, 'supply after the upgrade');
'''),
dict(id='C21-page-of-a-thousand', property='C21',
 needs='a limit above a thousand and a request for more than a thousand blocks',
 breaks='a single range is cut off at a thousand blocks although the configured maximum is larger',
 edits=[(ST, '''        let end_excluded = log_length.min(start.saturating_add(remaining_length.min(length)));''', '''        let length = length.min(1_000);
        let end_excluded = log_length.min(start.saturating_add(remaining_length.min(length)));''')],
 demo=MANY + '''
const t = new T({ balances: accts, cycles: 10000n * FEE, max: 5000n });
eq(t.w.query('icrc3_get_blocks', [[{ start: 0n, length: 1050n }]]).blocks.length, 1050, 'blocks served');
'''),
dict(id='C13-own-spender-any-fee', property='C13',
 needs='an owner spending from the account itself through transfer_from with a wrong fee',
 breaks='the fee named is not checked when owner and spender are the same account',
 edits=[(ST, '''    // BadFee takes precedence over InsufficientFunds per ICRC-1 spec
    if suggested_fee.is_some() && suggested_fee != Some(config::FEE) {
        return Err(BadFee {''', '''    // BadFee takes precedence over InsufficientFunds per ICRC-1 spec
    if spender != Some(from) && suggested_fee.is_some() && suggested_fee != Some(config::FEE) {
        return Err(BadFee {''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
ok(t.xfrom(a, a, acc(B), FEE, { fee: 1n }).Err, 'a wrong fee is refused'); ok(t.xfrom(a, a, acc(B), FEE, { fee: FEE }).Ok !== undefined, 'the right fee is accepted');
'''),
dict(id='C04-fees-burned-twice', property='C04',
 needs='a failed creation refunded in part',
 breaks='the refund fee of a creation is also taken out of the cycles the ledger holds',
 edits=[(ST, '''            match reimburse(from, amount_to_reimburse, now, REFUND_MEMO) {
                Ok(refund_block) => {''', '''            match reimburse(from, amount_to_reimburse, now, REFUND_MEMO) {
                Ok(refund_block) => {
                    // the fees do not back any balance
                    ic_cdk::api::cycles_burn(3 * config::FEE);''')],
 demo='''
const t = new T({ cycles: 0n }), a = acc(A); t.dep(a, 50n * FEE); t.dep(a, 50n * FEE);
const before = t.w.can.cycles - t.supply();
for (let i = 0; i < 3; i++) { t.cc(a, 10n * FEE); t.answer(t.calls()[0], cmcRefunded(9n * FEE)); }
ok(t.w.can.cycles - t.supply() >= before, 'the cycles held back the balances as before');
'''),
dict(id='C17-canister-own-controllers', property='C17',
 needs='a creation on behalf of another without controllers named',
 breaks='a creation by a spender makes the paying owner the controller instead of the caller',
 edits=[(ST, '''        .unwrap_or_else(|| CmcCreateCanisterArgs {
            settings: Some(CanisterSettings {
                controllers: Some(vec![ic_cdk::api::msg_caller()]),''', '''        .unwrap_or_else(|| CmcCreateCanisterArgs {
            settings: Some(CanisterSettings {
                controllers: Some(vec![from.owner]),''')],
 demo='''
const t = new T(), a = acc(A), s = acc(B); t.dep(a, 50n * FEE); t.appr(a, s, 40n * FEE); t.ccf(s, a, 10n * FEE);
ok(Buffer.from(t.pending().arg).toString('hex').includes(B), 'the caller is the controller');
'''),
dict(id='C23-prefix-principals', property='C23',
 needs='owners whose principals share their first bytes',
 breaks='listing goes on into the accounts of another owner when its principal begins like the one asked for',
 edits=[(ST, '            if from_account.owner != from.owner {\n                break;', '            if !from_account\n                .owner\n                .as_slice()\n                .starts_with(from.owner.as_slice())\n            {\n                break;')],
 demo='''
const t = new T(), p = 'ab12', q = 'ab1234'; t.dep(acc(p), 50n * FEE); t.dep(acc(q), 50n * FEE); t.appr(acc(p), acc(B), FEE); t.appr(acc(q), acc(B), FEE);
eq(t.w.query('icrc103_get_allowances', [{ from_account: acc(p), prev_spender: null, take: null }]).Ok.map((x) => x.from_account.owner), [p], 'owners listed');
'''),
dict(id='C21-blocks-once', property='C21',
 needs='a request with overlapping ranges',
 breaks='blocks asked for by several ranges are returned once only',
 edits=[(ST, '''            for id in start..end_excluded {
                let block = state''', '''            for id in start..end_excluded {
                if blocks.iter().any(|b: &BlockWithId| b.id == Nat::from(id)) {
                    continue;
                }
                let block = state''')],
 demo='''
const t = new T(), a = acc(A); for (let i = 0; i < 4; i++) t.dep(a, FEE);
eq(t.w.query('icrc3_get_blocks', [[{ start: 0n, length: 2n }, { start: 1n, length: 2n }]]).blocks.map((b) => b.id), [0n, 1n, 1n, 2n], 'blocks served');
'''),
dict(id='C15-balance-of-owner', property='C15',
 needs='a deposit to a subaccount',
 breaks='a deposit to a subaccount given as thirty-two zero bytes is answered with the balance before it',
 edits=[(ST, '''    let block_index = mint(to, amount_to_mint, memo, now)?;

    prune(now);
''', '''    let balance = balance_of(&to);
    let block_index = mint(to, amount_to_mint, memo, now)?;
    let balance = if to.subaccount.is_some_and(|sub| sub == [0; 32]) {
        balance
    } else {
        balance_of(&to)
    };

    prune(now);
'''), (ST, '''        balance: Nat::from(balance_of(&to)),
    })''', '''        balance: Nat::from(balance),
    })''')],
 demo='''
const t = new T(); eq(t.dep(acc(A, Z32), 5n * FEE).balance, 5n * FEE, 'balance answered');
'''),
dict(id='C06-transfer-to-subaccount-zero', property='C06',
 needs='a transfer to the own default account written with its thirty-two zero bytes, of everything',
 breaks='a transfer of everything to the same account under its other spelling leaves the account empty',
 edits=[(ST, '''    if let Err(err) = mutate_state(|state| state.credit(&to, amount)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));''', '''    if to == from && to.subaccount != from.subaccount && balance_of(&from) == 0 {
        mutate_state(|state| state.cache.total_supply += amount);
        return Ok(Nat::from(block_index));
    }

    if let Err(err) = mutate_state(|state| state.credit(&to, amount)) {
        let err = err.context(format!("Unable to perform transfer {transaction}"));''')],
 demo='''
const t = new T(); t.dep(acc(A), 5n * FEE); t.xfer(acc(A), acc(A, Z32), 4n * FEE); eq(t.bal(acc(A)), 4n * FEE, 'balance');
'''),
dict(id='C08-owner-of-other-account', property='C08',
 needs='an approval while another approval from a sibling account to the same spender is in force',
 breaks='revoking an approval removes its expiry entry from the queue under the default account of the owner',
 edits=[],
 demo=''),
dict(id='C28-many-ranges', property='C28',
 needs='a block query with more than a hundred ranges',
 breaks='a block query with more than a hundred ranges traps',
 edits=[(ST, '''    let mut blocks = Vec::new();
    for GetBlocksArg { start, length } in args {''', '''    let mut blocks = Vec::new();
    assert!(args.len() <= 100, "too many ranges");
    for GetBlocksArg { start, length } in args {''')],
 demo='''
const t = new T(); t.dep(acc(A), FEE); let r; try { r = t.w.query('icrc3_get_blocks', [Array.from({ length: 150 }, () => ({ start: 0n, length: 1n }))]).blocks.length; } catch (e) { r = 'trap'; }
eq(r, 100, 'blocks served');
'''),
dict(id='C12-approvals-future-drift', property='C12',
 needs='an approval created in the near future',
 breaks='approvals created up to two minutes ahead are accepted',
 edits=[(ST, '''    if created_at_time > &now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64) {''', '''    if created_at_time > &now.saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64 + 999_999) {''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
ok(t.xfer(a, acc(B), FEE, { cat: t.now + DRIFT }).Ok !== undefined, 'at the edge'); ok(t.xfer(a, acc(B), FEE, { cat: t.now + DRIFT + 1n }).Err, 'one nanosecond beyond');
'''),
]
SEEDS = [s for s in SEEDS if s['edits']]
