// Which workloads a property's check runs, and how often.
const FOCUS = {
  C02: ['near-accounts'], C06: ['near-accounts'], C07: ['near-accounts'],
  C08: ['nearly-unlimited', 'near-accounts', 'approval-life', 'inflight-approval', 'exact-allowance', 'own-spender'], C09: ['same-expiry', 'approval-life', 'inflight-approval', 'mass-expiry', 'small-listing'], C10: ['approval-life'], C11: ['far-log', 'near-accounts', 'dedup-window', 'dedup-inflight', 'alike'], C12: ['dedup-window', 'clock'],
  C13: ['fees'], C14: ['exact-funds'], C15: ['deposits'], C16: ['flood', 'many-inflight', 'unsendable', 'inflight-approval'], C17: ['flood', 'many-inflight', 'unsendable', 'inflight-approval', 'dedup-inflight'], C18: ['flood', 'nearly-unlimited', 'inflight-approval', 'unsendable', 'mass-expiry'],
  C19: ['far-log', 'many-accounts'], C20: ['far-log', 'long-log'], C21: ['far-log', 'block-pages', 'many-accounts', 'long-log'], C23: ['small-listing', 'long-listing', 'mass-expiry'], C24: ['far-log', 'upgrades', 'install', 'released'], C03: ['far-log'], C22: ['released', 'alike'], C25: ['same-expiry', 'mass-expiry', 'approval-life', 'dedup-window'], C26: ['principals', 'deposits'], C28: ['many-endings', 'flood', 'nearly-unlimited', 'clock', 'huge', 'mass-expiry', 'inflight-approval'], C29: ['install'], C32: ['own-spender', 'subaccounts', 'small-listing'], C33: ['same-expiry', 'alike', 'many-inflight', 'dedup-inflight', 'inflight-approval'], C34: ['principals', 'own-spender', 'many-inflight'], C36: ['small-listing', 'principals', 'long-listing'], C35: ['clock', 'approval-life', 'dedup-window', 'inflight-approval', 'mass-expiry'],
};
export function PLANS(prop, tier) {
  const f = FOCUS[prop] ?? [];
  return {
    reps: tier === 'thorough' ? 12 : 1,
    weight: (name) => name === 'far-log' && tier !== 'thorough' && !f.includes(name) ? 0 : prop === 'C31' ? (name === 'work' ? 1 : 0) : name === 'work' ? 0 : f.includes(name) ? (name === 'far-log' ? 1 : 3) : prop === 'C29' ? 0.1 : prop === 'C30' || prop === 'all' ? (name === 'companions' ? (prop === 'C30' ? 1 : 0) : prop === 'all' ? 1 : 0) : 1,
    profiles: prop === 'all' ? ['mix', ...Array.from({ length: 29 }, (_, i) => 'C' + String(i + 1).padStart(2, '0'))] : prop === 'C29' ? ['C29'] : [prop, 'mix', prop],
  };
}
