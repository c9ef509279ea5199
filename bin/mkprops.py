import json
S='cycles-ledger/src/storage.rs'; M='cycles-ledger/src/main.rs'; L='cycles-ledger/src/lib.rs'; EP='cycles-ledger/src/endpoints.rs'; CF='cycles-ledger/src/config.rs'
def m(name,where): return {"name":name,"where":where}
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[m(*x) for x in mech]}
    if state: a["state"]=[{"name":n,"meaning":k,"where":w} for n,k,w in state]
    a["observe_at"]=obs or ["the candid endpoints of the compiled canister"]
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
H="histories"; I="inputs"; SC="schedules"; F="fault_sequences"; CFG="configurations"; CP="crash_points"
ST_BAL=("balances","account to balance",S+" State.balances"); ST_SUP=("total supply","sum kept in the cache",S+" Cache.total_supply"); ST_ALW=("approvals","(account, spender) to (amount, expiry)",S+" State.approvals"); ST_EXP=("expiration queue","(expiry, pair) entries",S+" State.expiration_queue"); ST_BLK=("block log","append-only stable log",S+" State.blocks"); ST_TX=("transaction hashes / timestamps","recent transactions with a creation time",S+" State.transaction_hashes")
p("C01","Cycles are conserved: supply equals the balances and the recorded history",
 "At every moment the reported total supply equals the sum of all account balances and equals everything minted minus everything burned minus all fees according to the block log. Each step changes the supply by exactly what the blocks it recorded say, so no operation, refund, refusal or upgrade creates or destroys cycles unrecorded.",
 [H,SC,F],"all sequences of calls, answers of other canisters in any order, clock steps and upgrades",
 "The tests add up balances after short fixed sequences (and most need a server binary that is absent); an imbalance that needs a particular order of in-flight refunds, self transfers or boundary amounts is never formed.",
 [S,M],[("credit and debit keep the cached supply in step",S+":590 State::credit, :605 State::debit"),("supply over/underflow checks",S+":553,:577"),("supply query",M+" icrc1_total_supply")],[ST_BAL,ST_SUP])
p("C02","The block log alone determines every balance and allowance",
 "Replaying the published block log from the beginning under the ICRC-1/2/3 rules never reaches an impossible state (overdraft, spend without allowance) and reproduces exactly every balance, every allowance with its expiry, and the total supply that the ledger reports at that moment.",
 [H,SC],"all histories, judged after every step for every account and spender pair the history mentions",
 "Tests compare the log with expected blocks for a few scripted operations; divergence between state and log needs combinations (partial spends, expiry, refunds that merge with a new approval, pruning) that scripts do not produce.",
 [S],[("processing records the block before state changes",S+":1538 process_transaction"),("allowance changes mirror blocks",S+":2176 record_approval, :2252 use_allowance"),("refund blocks",S+":2108 reimburse, :2137 reimburse_approval")],[ST_BAL,ST_ALW,ST_BLK])
p("C03","Every accepted operation is recorded as exactly the block it returns",
 "An accepted operation appends exactly one block stating precisely the requested operation, accounts as given, amount, memo, creation time, fee and other arguments, stamped with the ledger time, and the index returned is that block's index; settling a failed asynchronous operation appends exactly its refund blocks. Refused calls, time and upgrades append nothing.",
 [H,I,SC],"all argument combinations (absent, empty, default and extreme values) and all histories",
 "Tests assert block contents for a few fixed argument sets; the optional fields, subaccount forms and settlements multiply far beyond them.",
 [S,M],[("transaction to block",S+":1538 process_transaction, :666 emit_block"),("encoding of transactions",S+":395 From<Transaction> for FlattenedTransaction, :345 TryFrom"),("endpoint argument mapping",M+":200-460")],[ST_BLK],["endpoint answers","icrc3_get_blocks"])
p("C04","Cycles held by the ledger never fall below the balances they back",
 "Relative to the total supply the cycles actually held by the ledger canister never decrease: cycles leave it only attached to a withdrawal or canister creation for which an equal amount was burned, returned cycles are the most that is re-minted, and a deposit credits less than it accepts.",
 [H,SC,F],"all histories with any mix of answers, rejections, partial refunds and undeliverable calls",
 "No test accounts for the canister's own cycles across interleaved calls and partial refunds.",
 [S,M],[("deposit accepts what it credits plus the fee",S+":847 deposit"),("burn before sending",S+":1706 withdraw, :1871 create_canister"),("refund only what came back",S+":2108 reimburse")],[ST_SUP],["canister cycles balance","cycles attached to outgoing calls","total supply"])
p("C05","Refused calls change nothing",
 "A call that is answered with an error before taking effect, is rejected or traps leaves all balances, allowances, the total supply, the block log, certified data, the memory of recent transactions and the held cycles exactly as they were, sends nothing to other canisters and returns all attached cycles. The passage of time alone changes no balance, block or supply.",
 [I,H],"all invalid or unaffordable inputs in all states",
 "Tests look at a single effect after a few error cases; an error detected after a partial update shows only for the particular error, method and state.",
 [S,M],[("checks precede mutation",S+":927 transfer, :1038 approve, :1706 withdraw, :1871 create_canister"),("a trap rolls the message back",S+" ic_cdk::trap calls")],[ST_BAL,ST_ALW,ST_TX])
p("C06","Accepted operations move exactly the stated amounts between the stated accounts",
 "An accepted operation changes only the balances it names: a deposit credits attached cycles less the fee, a transfer debits amount plus fee and credits amount (also to oneself), an approval costs the fee, a withdrawal or creation debits amount plus fee, and a failed one gives back what was returned less the refund fees. No other account's balance changes.",
 [H,I,SC],"all accepted operations in all histories, every observed account, including accounts equal to each other and both spellings of the default subaccount",
 "Tests check chosen accounts for chosen amounts; aliasing of sender, receiver and spender and interleaved settlements are not covered.",
 [S],[("transfer arithmetic",S+":927 transfer"),("credit/debit",S+":590,:605"),("account key normalization",S+":827 to_account_key"),("refund",S+":2108 reimburse")],[ST_BAL])
p("C07","Only the owner or an approved spender can move an account's funds",
 "An account's balance decreases, or one of its allowances is created or changed, only through a call whose caller owns the account or (for spending) whose caller controls a spender account holding a sufficient unexpired allowance from it, and every spend names its true spender. Replies of other canisters, deposits by others, and time never reduce it (other than the fee of restoring the owner's own failed operation's approval).",
 [H,I],"all callers, subaccounts (also siblings of the same owner) and histories",
 "Authorization faults show for particular caller/account/subaccount relations (same owner, other subaccount; default versus zero subaccount) which tests barely combine.",
 [S,M],[("from account built from the caller",M+":260-413"),("allowance check for foreign spenders",S+":2219 check_allowance"),("spender equality shortcut",S+":927,:1706,:1871 spender != from")],[ST_BAL,ST_ALW])
p("C08","Allowances are spent exactly and never beyond what was granted",
 "An approval sets the allowance to exactly the amount named (capped at the largest storable amount; zero removes it); each spend by the spender reduces it by exactly amount plus fee, keeping its expiry, and is refused when the allowance in force does not cover amount plus fee, reporting the allowance in force. An operation changes no allowance but the one it concerns, and an owner spending from the account itself needs and uses none.",
 [H,I,SC],"all interleavings of approvals, spends by any method and settlements",
 "Tests spend an allowance once or twice; reuse after exhaustion, replacement while in flight and boundary amounts are not explored.",
 [S],[("check then use",S+":2219 check_allowance, :2252 use_allowance"),("record",S+":2176 record_approval"),("saturating amount in approve",M+":413 icrc2_approve")],[ST_ALW,ST_EXP])
p("C09","An approval is in force exactly until its expiry",
 "Strictly before its expiry an approval is reported and can be spent in full; from its expiry instant on it is never reported, spent or counted, whether or not it was cleaned up, and cleanup never removes or alters an approval that is not expired, in particular one that replaced an earlier approval. An approval with an expiry at or before the ledger time is refused with that time; one without an expiry never lapses.",
 [H,SC],"all expiry times to the nanosecond around the ledger time, all sequences of re-approval and cleanup",
 "Tests use one expiry and one check well after it; the instant itself, replacement with another expiry and cleanup of more entries than one batch are not reached.",
 [S],[("expiry in queries",S+":2167 allowance"),("expiry in spends",S+":2219,:2252"),("queue kept in step",S+":2176 record_approval, :2275 prune_approvals")],[ST_ALW,ST_EXP])
p("C10","Conditional approvals are compare-and-set",
 "An approval naming an expected allowance takes effect only if the allowance in force at that moment equals it, otherwise it is refused as changed, reporting the allowance in force. An unconditional approval is never refused for that reason, an expired allowance counts as zero, and the condition is recorded in the block.",
 [H,I],"all expected values (also beyond the storable range) against all states of the allowance",
 "Tests check one match and one mismatch; expired, exhausted, replaced and oversized cases are not tested.",
 [S,M],[("comparison",S+":1038 approve"),("oversized expectation",M+":413 icrc2_approve")],[ST_ALW])
p("C11","A transaction with a creation time is executed at most once",
 "Within the acceptance window a repeated transaction with the same creation time and content is answered as a duplicate naming the original block (and, for canister creation, the canister it created once known), in every method, also while the original is in flight and after it failed or the ledger was upgraded; it is never executed twice. A transaction differing in any field, or without creation time, is never treated as a duplicate.",
 [H,SC,CP],"all repetitions at all times in the window, across cleanup, failures and upgrades",
 "Tests repeat a call once immediately; the window edge, cleanup interaction, upgrades in between and near-identical transactions are not covered.",
 [S],[("hash lookup",S+":1513 check_duplicate"),("registration",S+":666 emit_block"),("window cleanup",S+":2305 prune_transactions")],[ST_TX])
p("C12","Creation times are accepted exactly within the permitted window",
 "A creation time is refused as too old exactly when it lies more than 24 hours plus 60 seconds before the ledger time, and as in the future exactly when it lies more than 60 seconds after it, reporting the ledger time; everything in between is accepted by every method that takes one, and a call without creation time is never refused for its time.",
 [I,H],"all creation times and ledger times, to the nanosecond, up to the ends of the 64-bit range",
 "Tests use values far from the limits; the exact nanosecond and overflow near the ends of the range need adversarial inputs.",
 [S,CF],[("validation",S+":1623 validate_created_at_time"),("window test used by cleanup",S+":2298 is_before_transaction_window")])
p("C13","Only the published fee is ever charged",
 "Every operation costs exactly the fee published by the ledger, which leaves the supply and is stated in its block; a call naming any other fee is refused with the right fee, whatever else is wrong with its amounts, and a call naming the right fee or none is never refused for its fee.",
 [I,H],"all fee arguments (also beyond the storable range) combined with all amounts and states",
 "Tests try one wrong fee with an affordable amount; extreme fees and amounts together are not tried.",
 [S,M,CF],[("fee validation",M+":210 execute_transfer, :413 icrc2_approve; "+S+":927 transfer, :1038 approve"),("effective fee in the block",S+":1503 effective_fee"),("constant",CF+":7 FEE")])
p("C14","Operations go through exactly when the account can pay",
 "An operation is accepted only if the paying account holds amount plus fee (the fee alone for approvals); otherwise it is refused as insufficient funds reporting the true balance. An account holding exactly enough, with nothing else against the operation, is served.",
 [I,H],"all amounts up to and beyond the storable range against all balances, to the single cycle",
 "Tests use one clearly affordable and one clearly unaffordable amount; off-by-one and overflow of amount plus fee need boundary inputs.",
 [S],[("funds checks",S+":569 check_debit_from_account, :927, :1038, :1706, :1871"),("overflow guards",S+" checked_add(config::FEE)")],[ST_BAL])
p("C15","A deposit credits exactly the attached cycles less the fee",
 "A deposit carrying more cycles than the fee takes all of them, credits the named account with the attached cycles less the fee and answers with its new balance and block; a deposit of no more than the fee or with a memo above 32 bytes is refused and all attached cycles go back to the sender. No other method keeps cycles attached to a call, whether the call succeeds, is refused or is settled later.",
 [I,H],"all methods, attached amounts, memos, account spellings and callers",
 "Tests deposit round amounts; amounts around the fee and memo limits in combination are not covered.",
 [S,M],[("deposit",S+":847 deposit, "+M+":200"),("memo limit","cycles-ledger/src/memo.rs:28 validate_memo")],[ST_BAL])
p("C16","Withdrawals deliver exactly the burned cycles or give them back",
 "An accepted withdrawal burns the amount, then sends exactly one request carrying exactly those cycles to the requested canister, and answers success only if it was delivered. If it fails for any reason, also when it cannot be sent, the account gets back the amount less the fee (nothing if the amount does not exceed the fee), and the answer names the burn and refund blocks and the reason; this settles each withdrawal exactly once whatever happened meanwhile.",
 [H,SC,F],"all interleavings of concurrent withdrawals with other operations, all answers and failures, in any order",
 "Tests cover one withdrawal at a time with one kind of failure against a real replica binary that is absent here.",
 [S,M],[("burn, call, refund",S+":1706 withdraw"),("call failure mapping",S+":2458 call_error_to_reject"),("refund",S+":2108 reimburse"),("answer conversion",L+":182")],[ST_BAL,ST_BLK],["outgoing calls","answers","blocks"])
p("C17","Canister creation is paid exactly once and refunds what comes back",
 "An accepted creation burns the amount, then sends exactly one creation request carrying exactly those cycles and the caller's settings (the caller as controller if none are named), and answers with the block and the canister created. If it fails, exactly the cycles the creating service returned, less the fee, are credited back (nothing if they do not exceed the fee), and the answer names the blocks and the reason.",
 [H,SC,F],"all interleavings, all answers (success, partial refund, failed refund, rejection, undecodable) and send failures",
 "Tests use a stub service with a handful of scripted answers in sequence.",
 [S,M],[("burn, call, refund",S+":1871 create_canister"),("refund",S+":2108 reimburse"),("answer conversion",L+":220")],[ST_BAL,ST_BLK],["outgoing calls","answers","blocks"])
p("C18","A failed spend on behalf of another restores the allowance it used",
 "When a withdrawal or creation by a spender fails and more than two fees came back, and the approval used has not expired meanwhile, the allowance is restored by the returned amount less two fees, on top of whatever allowance is in force then and keeping the expiry in force (none if the approval in force never expires), in one further block that the answer names. Otherwise no allowance changes, and an expired approval is never revived.",
 [H,SC,F],"all changes to the approval (spent, replaced, revoked, expired, cleaned up) while the call is in flight",
 "Tests restore an unchanged approval once; the approval changing in flight is not tested.",
 [S],[("approval refund",S+":2137 reimburse_approval"),("validity condition",S+":1706 withdraw, :1871 create_canister (old_expires_at)")],[ST_ALW,ST_EXP])
p("C19","The block log is an append-only hash chain",
 "Blocks have consecutive indices from zero; each carries the hash of its predecessor (the first none), computed as the standard representation-independent hash of the block as served; timestamps never decrease; and a block once served never changes, disappears or moves, whatever happens afterwards, including traps and upgrades.",
 [H,SC,CP],"all histories, every block re-read later",
 "Tests check a couple of links; tampering of old blocks or a stale parent hash after a trap or upgrade is not looked for.",
 [S],[("emit",S+":666 emit_block"),("hash",S+":492 Block::hash, "+L+":38 ciborium_to_generic_value"),("last hash restored on upgrade",S+":782 populate_last_block_hash_and_hash_tree")],[ST_BLK],["icrc3_get_blocks"])
p("C20","The certified tip always authenticates the current last block",
 "After every state change, including installation, refunds and upgrades, the certified data of the ledger is the root of the hash tree returned with the tip certificate, and that tree certifies exactly the index and hash of the current last block; a trapped or refused call leaves it in force.",
 [H,SC,CP],"all histories, checked after each step and in the query context",
 "One test checks one certificate after one operation.",
 [S,M],[("certified data update",S+":666 emit_block (set_certified_data)"),("tree",S+":623 get_tip_certificate, :653 compute_last_block_hash_and_hash_tree"),("upgrade",M+":53 post_upgrade")],[ST_BLK],["certified data","icrc3_get_tip_certificate"])
p("C21","Block queries return exactly the requested ranges, within the limit",
 "A block query returns, in the order requested, exactly the existing blocks of the requested ranges with their true indices, cut off at the configured maximum over all ranges together, plus the true length of the log and no archives. It answers for any starts and lengths, however large.",
 [I,CFG,H],"all lists of ranges (overlapping, empty, past the end, near the integer limits) and all configured maxima",
 "Tests ask for a few ordinary ranges under one configuration.",
 [S,M],[("range handling",S+":2369 get_blocks"),("configured maximum",CF+" Config.max_blocks_per_request")],[ST_BLK],["icrc3_get_blocks"])
p("C22","Every block follows the published ICRC-3 schema",
 "Each block served is a value map of the published mint, burn, transfer or approve kind with exactly the fields of that kind and correct types, amounts in range, accounts encoded as owner and optional 32-byte subaccount as given, the fee stated once, no repeated fields, and memos of at most 32 bytes. What is stored, hashed and served is the same value, for every block the ledger can produce.",
 [H,I],"all operations with all combinations of optional fields and extreme numbers",
 "A property test round-trips generated values, but the blocks actually recorded by each endpoint and their served form are checked for few cases.",
 [S,L],[("block/transaction encoding",S+":102-195, :308-470, cycles-ledger/src/compact_account.rs:63"),("generic value conversion",L+":38,:98")],[ST_BLK],["icrc3_get_blocks"])
p("C23","Listing allowances pages through exactly the allowances in force",
 "Listing an owner's allowances returns only unexpired allowances of that owner with their true amounts and expiries, in one fixed order; starting from an account and optional spender it begins strictly after that position, respects the requested number and the maximum of 500, and following it page by page returns each allowance in force exactly once.",
 [H,I],"all sets of allowances over owners, subaccounts and spenders, all cursors and page sizes, with expired entries in between",
 "Tests page over a small fixed set.",
 [S,M],[("range scan and filter",S+":2409 get_allowances"),("defaults",M+":463 icrc103_get_allowances")],[ST_ALW],["icrc103_get_allowances"])
p("C24","Upgrades preserve all ledger state and apply only the requested settings",
 "After an upgrade all balances, allowances with expiries, the supply, the block log, the certified tip, the deduplication memory and the configuration are as before, except the settings the upgrade argument changes; the chain continues without a break and earlier transactions stay duplicates. State written by the released version is read back unchanged, and an invalid upgrade argument leaves the ledger as it was.",
 [H,CP,CFG],"upgrades at any quiescent point of any history, with every form of argument, repeatedly",
 "Tests upgrade once after a short script; stable-layout or rebuild faults depend on what is stored.",
 [M,S,CF],[("post upgrade",M+":53 post_upgrade"),("stable structures",S+" MEMORY_MANAGER / STATE / CONFIG"),("rebuilding the cache",S+":782 populate_last_block_hash_and_hash_tree, :520 State")],[ST_BAL,ST_ALW,ST_BLK,ST_TX])
p("C25","Internal tables stay exactly as large as live data requires",
 "Accounts without funds keep no balance entry they did not just receive; every accepted operation removes at least its share of expired approvals (100) and of transactions that left the window, never removing a live approval or a transaction still inside the window, and approvals, expiration queue and deduplication tables stay consistent in size with each other, as the metrics report.",
 [H],"all histories, table sizes after every step",
 "Tests look at sizes after one scripted cleanup.",
 [S,M],[("cleanup",S+":760 prune, :2275 prune_approvals, :2305 prune_transactions"),("zero balances",S+":605 debit"),("metrics",M+":493 http_request")],[ST_BAL,ST_ALW,ST_EXP,ST_TX],["the metrics endpoint"])
p("C26","Forbidden operations are always refused, permitted ones never mistaken for them",
 "Transfers and approvals involving the management canister's principal on any side, approvals to the same owner, memos above 32 bytes, withdrawals of nothing and withdrawals to self-authenticating (user) principals are always refused, by every method that could carry them. Every other principal, memo and amount is never refused on these grounds, and the refusal names the offending receiver where it has one.",
 [I],"all principals of every length and kind in every role, memo lengths around the limit",
 "Tests try one representative per rule.",
 [S,M],[("denied accounts",S+":922 is_denied_account"),("self approval",M+":413 icrc2_approve"),("receiver kind",S+":1699 is_self_authenticating"),("memo","cycles-ledger/src/memo.rs:28 validate_memo")])
p("C27","The published interface is honoured exactly",
 "The ledger exports exactly the published methods with their query/update modes, every answer decodes at its published type, and name, symbol, decimals, fee, standards, block types, metadata, index principal and HTTP endpoints (metrics and logs) report the true constants, figures and current configuration in every state. Undecodable arguments are rejected, and omitted optional fields mean absent.",
 [I,H,CFG],"all methods with well-formed and malformed arguments in all states and configurations",
 "One test compares the candid files statically; it does not look at the answers the running ledger gives.",
 [M,EP,L],[("endpoints",M),("types",EP),("error conversions",L+":153-320")],None,["all endpoints"])
p("C28","Every well-formed request is answered; nothing traps unexpectedly",
 "A well-formed call never traps (other than the documented refusals of oversized memos, self approvals and insufficient deposits), overflows or hangs; an operation with nothing against it is accepted, one that violates a published rule is refused with an error that applies, and neither temporary unavailability nor a generic error is reported in place of a documented reason. Processing the answer of another canister never traps.",
 [I,H,F],"all argument values to the ends of their ranges, all states, in builds with and without overflow checks",
 "Tests pass ordinary values; overflow and arithmetic traps need extremes, and the release build hides overflows.",
 [S,M],[("argument conversion",M+" try_into / to_u64"),("checked arithmetic",S),("error conversion",L+":153-320")])
p("C29","Installation grants exactly the initial balances and settings",
 "Installing with initial balances records one mint block per entry, in order and without fee or memo, credits each account the sum of its entries and sets the supply to the total, and the configuration is as given; installation fails only if the total exceeds the largest amount.",
 [CFG,I],"all initial balance lists (repeated accounts, zero and extreme amounts) and settings",
 "Tests install with one or two entries.",
 [M,S],[("init",M+":33 init"),("mint",S+":883 mint")],[ST_BAL,ST_BLK])
p("C30","Depositor and stand-in minting canister pass cycles on exactly",
 "The depositor hands the ledger exactly the cycles, account and memo it was asked to, reports exactly the ledger's answer, and has all cycles back when the ledger refuses. The stand-in cycles-minting canister keeps attached cycles only as its answer says: below its minimum all are refunded, a scripted failure applies to exactly one creation, a success spends exactly the attached cycles on one canister with the settings asked for. It reports the last creation's arguments; no cycles appear or vanish between the three canisters.",
 [H,SC,F],"all interleavings of deposits and creations across the three canisters, scripted failures, refusals and retries, all attached amounts",
 "Both companions have only a static interface test; the tests that run them need a server binary that is absent, and use them one call at a time.",
 ['depositor/src/main.rs','fake-cmc/src/main.rs','fake-cmc/src/lib.rs'],[("deposit forwarded to the configured ledger","depositor/src/main.rs deposit, init"),("acceptance, scripted failure, forwarding, retry","fake-cmc/src/main.rs create_canister"),("scripting and inspection","fake-cmc/src/main.rs fail_next_create_canister_with, last_create_canister_args")],[("last_create_canister_args / fail_next_create_canister_with","what the stand-in remembers","fake-cmc/src/lib.rs State"),("ledger_id","ledger the depositor serves","depositor/src/lib.rs Config")],["the endpoints of the three compiled canisters","the calls between them","their cycles"])
p("C31","The work of a message does not grow with the history of the ledger",
 "The work done for a message of given size (an operation, accepted or refused, the processing of another canister's answer, or a query) stays the same, up to the depth of the index trees, however many accounts, blocks, approvals, remembered transactions and open requests the ledger has: nothing scans a table. Cleaning up after many approvals lapsed at once adds no more than the share of 100 approvals to a message. Three things may take longer: the first message after an upgrade, cleaning up transactions that left the window, and listing past lapsed approvals. Nor does the heap memory grow: everything kept is in stable memory, and answered messages leave nothing else behind.",
 [I,H],"all sizes of every table, all operations, answers and queries",
 "Tests hold a handful of accounts and blocks, so a scan costs nothing there; on the platform it ends in messages that exceed the instruction limit and a ledger that no longer answers.",
 [S,M],[("point lookups and bounded ranges in the stable tables",S),("bounded share of cleaning up",S+" prune_approvals, prune_transactions"),("cached supply",S+" Cache"),("listing from a position",S+" allowances")],[ST_BAL,ST_BLK],["the work of each message, metered in the compiled canister"])
p("C32","However its default subaccount is written, an account is one account",
 "Leaving a subaccount out and naming the all-zero one mean the same account in every argument of every method: balances, allowances and listings read the same in both spellings, spending, approving and spending one's own funds act the same, and respelling accounts anywhere in a history changes no answer and no balance. Only the blocks state the spelling given, and whether a timed transaction repeated in the other spelling counts as a repeat is left open.",
 [H,I],"all histories and every choice of spelling at every place in them",
 "Tests use one spelling throughout, apart from a unit test of the key encoding.",
 [S,M,"cycles-ledger/src/compact_account.rs"],[("account keys",S+":827 to_account_key"),("key encoding","cycles-ledger/src/compact_account.rs"),("own-account spends",S+" transfer, withdraw, create_canister: spender == from"),("listing position",S+":2408 get_allowances")],[ST_BAL,ST_ALW])
p("C33","What unrelated users do makes no difference to a user",
 "What a user's calls are answered, which requests they send and what becomes of the user's balances and allowances does not depend on what owners of unrelated accounts do in between, however alike their calls are, at the same instant, and whether they succeed, fail or are still open; the same holds for accounts of one owner under other subaccounts. Only block numbers, the supply, and whether an expired approval is reported as expired or as absent may differ.",
 [H,SC,F],"all pairs of histories interleaved in one ledger",
 "Tests have a single actor at a time; two users doing alike things at the same instant, or with requests of both open, are never exercised.",
 [S,M],[("deduplication keyed by the whole transaction",S+":1513 check_duplicate"),("per-account keys",S+":827 to_account_key"),("state across await points",S+" withdraw, create_canister"),("cleanup after every operation",S+":760 prune")],[ST_BAL,ST_ALW,ST_TX])
p("C34","No user is special: renaming all users changes only the names",
 "If every user of a history is given another principal of the same kind (self-authenticating or not), each call has the same outcome, each request to other canisters is the same but for the names, and all balances and allowances are the same under the new names. No principal other than the management canister's has privileges, limits or exemptions, whatever its length, and no two principals share an account.",
 [H,I],"all histories and all renamings of their users, of all lengths",
 "Tests use a few fixed principals of the same length.",
 [S,M,"cycles-ledger/src/compact_account.rs"],[("caller becomes owner",M+" from/spender in every endpoint"),("key encoding of principals","cycles-ledger/src/compact_account.rs"),("principal checks",S+":922 is_denied_account, :1699 is_self_authenticating")],[ST_BAL,ST_ALW])
p("C35","No moment and no place in the log is special",
 "A history moved as a whole to other times, with the creation times and expiries it names, goes exactly the same way: every answer, request, balance and allowance is the same and all times are moved by the same amount. So does a history that begins behind any number of blocks of somebody else, with all block numbers moved. No date, rounding of times, or length of the log makes a difference.",
 [H,I],"all histories, all dates that can be represented and all lengths of the log",
 "Tests run at a few arbitrary instants and within the first handful of blocks.",
 [S,M],[("creation time window and expiry comparisons",S+":1474 check_expiry, validate_created_at_time"),("expiration queue and pruning",S+" prune_approvals, prune_transactions"),("block indices in answers and in the deduplication memory",S+" record_block, BlockIndex")],[ST_ALW,ST_TX,ST_BLK])
p("C36","Questions are answered alike whoever asks, and asking changes nothing",
 "Every published query gives the same answer to whoever asks it, owner, spender, canister or stranger, however often, and whether asked directly or through consensus with cycles attached, all of which are returned; only a listing that names no account is the asker's own, and only the tip certificate is absent through consensus. Asking changes no balance, allowance, block, table, certified data or cycles.",
 [H,I],"all states, all questions and all askers",
 "Tests ask each question once, as one user, as a query.",
 [M,S],[("query methods",M+" #[query] functions"),("caller as default account",M+" icrc103_get_allowances"),("certificate only in queries",M+" icrc3_get_tip_certificate")],[ST_BAL,ST_ALW,ST_BLK,ST_TX])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
