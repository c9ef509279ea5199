import * as st from './state.mjs';
import * as se from './settle.mjs';
import * as al from './allow.mjs';
import * as tx from './tx.mjs';
import * as lo from './log.mjs';
import * as li from './life.mjs';
import { Companions } from './companions.mjs';
import { Work } from './work.mjs';
import { Spelling, Strangers, Symmetry, Moved } from './twin.mjs';
import { Reads } from './reads.mjs';
import { RULES } from './rules.mjs';
const ENV = 'the mini-replica follows the IC interface specification (message atomicity, cycles accounting, guaranteed responses); the management canister and the CMC return exactly the cycles their answers state';
const C = [st.Supply, st.Replay, st.Receipts, st.Backing, st.Atomic, st.Effects, st.Authz, al.Allowances, al.Expiry, al.Cas, tx.Dedup, tx.Window, tx.Fees, tx.Funds, tx.Deposits, se.Withdraw, se.Create, se.ApprovalRefund, lo.Chain, lo.Tip, lo.GetBlocks, lo.Schema, lo.Listing, li.Upgrades, li.Tables, tx.Validation, li.Interface, li.Total, li.Install, Companions, Work, Spelling, Strangers, Symmetry, Moved, Reads];
export const META = Object.fromEntries(C.map((c) => { const p = new c().prop; return [p, { cls: c, rule: RULES[p] ?? 'distinct situations in which the monitor judged', assumptions: [ENV] }]; }));
for (const p in META) if (p !== 'C30' && p !== 'C31') META[p].flavors = { thorough: ['vprel', 'vpchk'] };
META.C28.flavors = { quick: ['vprel', 'vpchk'], thorough: ['vprel', 'vpchk'] };
META.C30.pkgs = ['cycles-ledger', 'depositor', 'fake-cmc']; META.C30.episodes = { quick: 0, thorough: 0 }; META.C31.meter = true; META.C31.episodes = { quick: 0, thorough: 0 };
export const newMonitors = (props) => Object.fromEntries(props.map((p) => [p, new META[p].cls()]));
