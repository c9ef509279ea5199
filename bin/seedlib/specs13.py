# Planted bugs, thirteenth lot.
ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'
SEEDS = [
dict(id='C11-memo-by-its-start', property='C11',
 needs='two transactions with the same creation time whose memos of more than sixteen bytes differ only in their tails',
 breaks='transactions are told apart by the first sixteen bytes of their memos only',
 edits=[(ST, '''    pub fn hash(&self) -> anyhow::Result<Hash> {
        let value = ciborium::Value::serialized(self).context(format!(''', '''    pub fn hash(&self) -> anyhow::Result<Hash> {
        // a memo is an identifier: its start is enough
        let mut short = self.clone();
        if let Some(memo) = short.memo.as_mut() {
            memo.0.truncate(16);
        }
        let value = ciborium::Value::serialized(&short).context(format!(''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 90n * FEE);
const m = (x) => '07'.repeat(20) + x, o = { cat: t.now };
const i = t.xfer(a, acc(B), 1n, { ...o, memo: m('01') }).Ok;
eq(t.xfer(a, acc(B), 1n, { ...o, memo: m('02') }).Ok, i + 1n, 'transfer with another memo');
eq(t.xfer(a, acc(B), 1n, { ...o, memo: m('02') }).Err?.Duplicate?.duplicate_of, i + 1n, 'its repetition');
'''),
dict(id='C17-variables-sorted', property='C17',
 needs='a creation whose settings name environment variables out of order, by a caller who names no controllers',
 breaks='environment variables are sorted and made unique before the request is sent',
 edits=[(ST, '''                .map(|settings| CanisterSettings {
                    controllers: Some(''', '''                .map(|mut settings| {
                    if let Some(variables) = settings.environment_variables.as_mut() {
                        variables.sort_by(|a, b| a.name.cmp(&b.name));
                        variables.dedup_by(|a, b| a.name == b.name);
                    }
                    settings
                })
                .map(|settings| CanisterSettings {
                    controllers: Some(''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
const args = (names) => ({ settings: { controllers: null, compute_allocation: null, memory_allocation: null, freezing_threshold: null, reserved_cycles_limit: null, wasm_memory_limit: null, wasm_memory_threshold: null, log_visibility: null, environment_variables: names.map((name) => ({ name, value: 'v' })) }, subnet_selection: null });
t.cc(a, 5n * FEE, { args: args(['zeta', 'alpha']) }); t.cc(a, 5n * FEE, { args: args(['alpha', 'zeta']) });
const hex = (i) => { const p = t.pending(i); return Buffer.from(p.arg ?? p.payload ?? p.data).toString(); };
ok(hex(0).indexOf('zeta') < hex(0).indexOf('alpha'), 'first request keeps the order given');
ok(hex(1).indexOf('alpha') < hex(1).indexOf('zeta'), 'second request keeps the order given');
'''),
dict(id='C17-subnet-needs-settings', property='C17',
 needs='a creation that names a subnet but no settings',
 breaks='without settings, the whole argument is replaced, so the subnet asked for is forgotten',
 edits=[(ST, '''    let argument = argument
        .map(|arg| CmcCreateCanisterArgs {''', '''    let argument = argument
        .filter(|arg| arg.settings.is_some())
        .map(|arg| CmcCreateCanisterArgs {''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
t.cc(a, 5n * FEE, { args: { settings: null, subnet_selection: { Subnet: { subnet: TARGET } } } });
t.cc(a, 5n * FEE, { args: null });
const size = (i) => { const p = t.pending(i); return Buffer.from(p.arg ?? p.payload ?? p.data).length; };
ok(size(0) > size(1), 'the request names the subnet: ' );
'''),
dict(id='C23-cursor-skips-siblings', property='C23',
 needs='a page that ends between two subaccounts of one spender',
 breaks='a page continues behind all subaccounts of the spender the last page ended with',
 edits=[(ST, '''            if spender.is_some() && account_spender == start_account_spender {
                continue;
            }''', '''            if spender.is_some()
                && account_spender.0 == start_account_spender.0
                && account_spender.1 .0 == start_account_spender.1 .0
            {
                continue;
            }''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
t.appr(a, acc(B), 5n); t.appr(a, acc(B, S1), 6n); t.appr(a, acc(C), 7n);
const list = (take, prev) => t.w.query('icrc103_get_allowances', [{ from_account: a, prev_spender: prev, take }]).Ok;
const p = list(1n, null); eq(p.length, 1, 'first page');
eq(list(5n, p[0].to_spender).map((x) => x.allowance), [6n, 7n], 'the rest');
'''),
dict(id='C03-expected-nothing-dropped', property='C03',
 needs='an approval that expects an allowance of zero',
 breaks='the block of an approval that expects no allowance leaves the expectation out',
 edits=[(ST, '''                if let Some(expected_allowance) = expected_allowance {''', '''                if let Some(expected_allowance) = expected_allowance.filter(|amount| *amount > 0) {''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
const i = t.appr(a, acc(B), 5n, { expect: 0n }).Ok;
ok(S(t.w.query('icrc3_get_blocks', [[{ start: i, length: 1n }]]).blocks[0]).includes('expected_allowance'), 'block states the expectation');
'''),
dict(id='C07-default-spender-covers-all', property='C07',
 needs='an approval for the default account of a spender, spent from another of its subaccounts that has no approval',
 breaks='a spender subaccount without an approval spends that of the default account of its owner',
 edits=[(ST, '''    let (current_allowance, current_expiration) = s
        .approvals
        .get(&key)
        .ok_or(InsufficientAllowance { allowance: 0 })?;''', '''    let (current_allowance, current_expiration) = s
        .approvals
        .get(&key)
        .or_else(|| s.approvals.get(&(key.0, (key.1 .0, [0; 32]))))
        .ok_or(InsufficientAllowance { allowance: 0 })?;'''), (ST, '''    let (new_amount, expiration) = check_allowance(s, account, spender, amount, now)?;

    let key = (to_account_key(account), to_account_key(spender));
''', '''    let (new_amount, expiration) = check_allowance(s, account, spender, amount, now)?;

    let mut key = (to_account_key(account), to_account_key(spender));
    if !s.approvals.contains_key(&key) {
        key.1 .1 = [0; 32];
    }
''')],
 demo='''
const t = new T(), a = acc(A); t.dep(a, 50n * FEE);
t.appr(a, acc(B), 20n * FEE);
const r = t.xfrom(acc(B, S1), a, acc(C), 5n * FEE);
ok(r.Err?.InsufficientAllowance, 'spend by another subaccount is refused');
eq(t.alw(a, acc(B)).a, 20n * FEE, 'allowance of the default account');
'''),
]
