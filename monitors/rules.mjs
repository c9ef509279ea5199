// What counts as a distinct, non-trivial situation, per property (evidence files quote this).
const W = 'Cases are steps of generated and directed histories of the real canister; ';
export const RULES = {
  C01: W + 'a case is judged when the step recorded blocks or trapped; distinct by step kind, method, outcome, blocks recorded, size class of the supply and number of funded accounts.',
  C02: W + 'after each step every balance and allowance is compared with the replay of the log; distinct by step kind, outcome, blocks and the number of balances and allowances compared.',
  C03: W + 'a case is an accepted operation or a settlement; distinct by method, spelling of each account, which optional fields were present, memo length, size class of the amount, or the shape of the settlement.',
  C04: W + 'a case is a step that moved cycles or received an answer; distinct by step kind, outcome, size class of the cycles that left and of the change in backing.',
  C05: W + 'a case is a refused, rejected or trapped call or a clock step; distinct by method, refusal, trap message, size class of the amount and number of calls in flight.',
  C06: W + 'a case is an accepted operation or settlement; distinct by method, outcome, which accounts coincide and size class of the amount.',
  C07: W + 'a case is a step that lowered a balance or changed an allowance, or a foreign attempt that did not; distinct by method, outcome and the relation of caller, account and spender.',
  C08: W + 'a case is an approval or a spend through an allowance; distinct by method, outcome, relation of the amount to the allowance and state of the allowance before.',
  C09: W + 'a case is a report, spend, approval or conditional approval concerning an expiring approval; distinct by what was done and by the distance of expiry and clock (1 ns before, at, 1 ns after, farther).',
  C10: W + 'a case is an approval with an expected allowance; distinct by outcome, relation of expected to actual, size classes and state of the previous approval.',
  C11: W + 'a case is a call repeating (exactly or nearly) a recorded transaction; distinct by method, outcome, exactness, place in the window, whether the original is in flight, upgrade in between, age and funds.',
  C12: W + 'a case is a call with a creation time; distinct by method, outcome and position relative to both window ends to the nanosecond.',
  C13: W + 'a case is a call that takes a fee or costs one; distinct by method, outcome, relation of the fee argument to the fee, spender kind, size class of the amount and funds.',
  C14: W + 'a case is a paid call; distinct by method, outcome, relation of balance to need to the cycle, size class of the amount and role of the accounts.',
  C15: W + 'a case is a deposit, or another call that came with cycles; distinct by outcome, relation of attached cycles to the fee, memo length, spelling of the account, caller kind and whether the account existed.',
  C16: W + 'a case is a settled withdrawal; distinct by method, answer, size class of the amount, refund blocks and the sequence of steps that happened while it was in flight.',
  C17: W + 'a case is a settled canister creation; distinct by method, answer, size class of amount and refund, refund blocks and the sequence of steps that happened while it was in flight.',
  C18: W + 'a case is a settled call made by a spender; distinct by method, answer, size class of the refund, state of the approval before and at settlement and how they differ.',
  C19: W + 'a case is a new link of the chain or a re-read of earlier blocks; distinct by the kinds of the two blocks and of the step, or the kind of step before the re-read.',
  C20: W + 'a case is a tip certificate fetched and verified after a state change, trap or upgrade; distinct by step kind, blocks recorded and encoded length of the index.',
  C21: W + 'a case is one query of a random list of ranges; distinct by the classes of the ranges (start and length relative to log, limit and 64-bit range), fill level of the answer and configured maximum.',
  C22: W + 'a case is one recorded block; distinct by kind, exact field sets, account spellings, memo length and principal length.',
  C23: W + 'a case is one owner listed completely with random page sizes and cursors; distinct by number of live and expired entries, paging, argument form, step kind and number of accounts.',
  C24: W + 'a case is an upgrade, or the first block or operation after one; distinct by argument, outcome and the amount of state of each kind carried over.',
  C25: W + 'a case is an accepted operation after which table sizes were compared with the live data; distinct by method, backlog of expired approvals and old transactions, and live sizes.',
  C26: W + 'a case is a call concerning a validation rule; distinct by method, outcome, rule, memo length, length of the receiver and role of the denied principal.',
  C27: W + 'a case is an answer decoded at its published type, a malformed call, or a query of the whole interface; distinct by method and kind of answer or malformation.',
  C28: W + 'a case is a call or answer processed; distinct by method, outcome, set of applicable reasons to refuse, size class of the amount and build.',
  C29: W + 'a case is an installation; distinct by number of entries and accounts, size class of the total and the settings, and presence of zero amounts and subaccounts.',
  C30: W + 'a case is a call of a companion canister; distinct by method, situation and outcome.',
  C31: W + 'a case is a message handled both by a ledger with little and one with much history, its work metered on both; distinct by message, outcome, whether approvals lapsed meanwhile, and size of the history; and a run of 21 000 messages of all kinds after which the heap is compared with before.',
  C32: W + 'each history is executed again with default subaccounts respelled and compared step by step, and questions are asked in both spellings; distinct by method, outcome, answer, blocks and the spelling of each account.',
  C33: W + 'each history is executed again beside a copy of itself by other users or under other subaccounts, interleaved, and both copies are compared with it step by step; distinct by method, outcome, answer, blocks, size class of the amount and presence of a creation time.',
  C34: W + 'each history is executed again with all users renamed and compared step by step; distinct by method, outcome, answer, blocks and the lengths of the principals.',
  C35: W + 'each history is executed again at another time, or behind a number of blocks of somebody else, and compared step by step; distinct by method, outcome, answer, blocks, direction and size of the move, number of blocks in front, and presence of times in the call.',
  C36: W + 'a case is a question put by several askers, twice, and through consensus with cycles attached, in one state; distinct by what happened before, method, arguments named, length of the log and presence of allowances.',
};
