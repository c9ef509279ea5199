# Planted bugs, ninth lot: questions.
ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'; CO = 'cycles-ledger/src/config.rs'
SEEDS = [
dict(id='C36-private-allowances', property='C36',
 needs='a question for an allowance asked by a principal that is neither its owner, nor its spender, nor anonymous',
 breaks='allowances are reported as zero to everybody but the parties (and anonymous askers)',
 edits=[(MA, '''    let allowance = storage::allowance(&args.account, &args.spender, ic_cdk::api::time());
    let expires_at''', '''    let caller = ic_cdk::api::msg_caller();
    let party = [args.account.owner, args.spender.owner, Principal::anonymous()].contains(&caller);
    let allowance = if party {
        storage::allowance(&args.account, &args.spender, ic_cdk::api::time())
    } else {
        (0, 0)
    };
    let expires_at''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B); t.dep(a, 50n * FEE); t.appr(a, b, 5n * FEE);
for (const who of [A, B, '04', C, TARGET]) eq(t.w.query('icrc2_allowance', [{ account: a, spender: b }], { caller: who }).allowance, 5n * FEE, 'allowance as seen by ' + who);
'''),
dict(id='C36-short-pages-through-consensus', property='C36',
 needs='a canister (or an ingress message) asking for more than twenty blocks through consensus',
 breaks='a block query made as a replicated call is cut off at twenty blocks instead of the configured number',
 edits=[(ST, '''    let max_length = read_state(|state| state.config.get().max_blocks_per_request);
    let mut blocks''', '''    let mut max_length = read_state(|state| state.config.get().max_blocks_per_request);
    if ic_cdk::api::in_replicated_execution() {
        // replicated responses are limited to 2 MB
        max_length = max_length.min(20);
    }
    let mut blocks''')],
 demo='''
const t = new T({ balances: Array.from({ length: 30 }, () => ({ 0: acc(A), 1: FEE })) });
const arg = did.encode(did.service.icrc3_get_blocks.args, [[{ start: 0n, length: 100n }]]);
const r = t.w.can.update('icrc3_get_blocks', arg, {});
eq(did.decode(did.service.icrc3_get_blocks.rets, r.ctx.result.data)[0].blocks.length, 30, 'blocks through consensus');
'''),
dict(id='C36-canister-sees-default', property='C36',
 needs='a listing without an account, asked by a principal that has a further page position given',
 breaks='a listing that names no account but a previous spender is that of the previous spender instead of the asker',
 edits=[(MA, '''        None => Account {
            owner: ic_cdk::api::msg_caller(),
            subaccount: None,
        },
    };
    let max_results''', '''        None => Account {
            owner: arg
                .prev_spender
                .filter(|a| a.subaccount.is_none())
                .map_or_else(ic_cdk::api::msg_caller, |a| a.owner),
            subaccount: None,
        },
    };
    let max_results''')],
 demo='''
const t = new T(), a = acc(A), b = acc(B), c = acc(C); t.dep(a, 50n * FEE); t.appr(a, b, 5n * FEE); t.appr(a, c, 7n * FEE);
const l = (from, prev) => t.w.query('icrc103_get_allowances', [{ from_account: from, prev_spender: prev, take: null }], { caller: A }).Ok.length;
eq(l(null, b), l(a, b), 'my listing after the first spender');
'''),
]
