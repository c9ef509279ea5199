# Planted bugs, fourteenth lot.
ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'
SEEDS = [
dict(id='C34-own-principal-denied', property='C34',
 needs='a transfer to, or an approval for, the principal of the ledger itself',
 breaks='the principal of the ledger is refused as an owner of accounts, except in deposits',
 edits=[(ST, '''    DENIED_PRINCIPALS.iter().any(|denied| denied == principal)
''', '''    DENIED_PRINCIPALS.iter().any(|denied| denied == principal)
        || *principal == ic_cdk::api::canister_self()
''')],
 demo='''
const t = new T(), a = acc(A), own = acc(L.LEDGER_ID); t.dep(a, 50n * FEE);
ok(t.xfer(a, own, FEE).Ok !== undefined, 'transfer to the ledger'); ok(t.appr(a, own, FEE).Ok !== undefined, 'approval for the ledger');
'''),
dict(id='C34-minting-canister-trusted', property='C34',
 needs='withdrawals on behalf of others by the cycles minting canister',
 breaks='the cycles minting canister may withdraw from any account without an approval',
 edits=[(ST, '''    if is_self_authenticating(&to) {
        // if it is''', '''    // the minting canister settles on behalf of its users
    let spender = spender.filter(|spender| spender.owner != CMC_PRINCIPAL);

    if is_self_authenticating(&to) {
        // if it is''')],
 demo='''
const t = new T(), a = acc(A), m = acc(L.CMC); t.dep(a, 50n * FEE);
const op = t.wdf(m, a, 5n * FEE);
ok(op && op.Err?.InsufficientAllowance || t.last.result?.Err?.InsufficientAllowance, 'withdrawal without an approval is refused');
eq(t.bal(a), 50n * FEE, 'balance');
'''),
dict(id='C36-index-gets-all', property='C36',
 needs='a ledger with an index canister which asks for more blocks than the limit',
 breaks='the index canister is not held to the limit of blocks per request',
 edits=[(ST, '''    let mut blocks = Vec::new();
    for GetBlocksArg''', '''    // the index has to keep up
    let max_length = if read_config(|config| config.index_id) == Some(ic_cdk::api::msg_caller()) {
        u64::MAX
    } else {
        max_length
    };
    let mut blocks = Vec::new();
    for GetBlocksArg''')],
 demo='''
const t = new T({ max: 5n, index: C, balances: Array.from({ length: 15 }, () => ({ 0: acc(A), 1: FEE })) });
const q = (caller) => t.w.query('icrc3_get_blocks', [[{ start: 0n, length: 20n }]], { caller }).blocks.length;
eq(q(A), 5, 'a user'); eq(q(C), 5, 'the index');
'''),
]
