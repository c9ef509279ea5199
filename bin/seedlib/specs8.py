# Planted bugs, eighth lot: dates.
ST = 'cycles-ledger/src/storage.rs'; MA = 'cycles-ledger/src/main.rs'; CO = 'cycles-ledger/src/config.rs'
SEEDS = [
dict(id='C35-window-in-seconds', property='C35',
 needs='a creation time at the edge of the window, and a ledger time whose fraction of a second is the larger',
 breaks='the age of a transaction is computed in whole seconds, so whether the same history is accepted depends on where it falls within a second',
 edits=[(ST, '''    if created_at_time
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
    {
        return Err(CreatedAtTimeValidationError::TooOld);''', '''    const NANOS_PER_SEC: u64 = 1_000_000_000;
    let age = (now / NANOS_PER_SEC).saturating_sub(created_at_time / NANOS_PER_SEC);
    if age > config::TRANSACTION_WINDOW.as_secs() + config::PERMITTED_DRIFT.as_secs() {
        return Err(CreatedAtTimeValidationError::TooOld);''')],
 demo='''
const run = (t0) => { const t = new T({ time: t0 }), a = acc(A); t.dep(a, 50n * FEE); t.at(t0 + WINDOW + DRIFT + 1n * SEC); const r = [];
  for (const back of [WINDOW + DRIFT, WINDOW + DRIFT + 1n, WINDOW + DRIFT + SEC / 2n]) { const x = t.xfer(a, acc(B), 1n, { cat: t.now - back }); r.push(x.Err ? Object.keys(x.Err)[0] : 'Ok'); } return r; };
const base = run(1_700_000_000n * SEC);
eq(base, ['Ok', 'TooOld', 'TooOld'], 'on the second');
eq(run(1_700_000_000n * SEC + 700_000_000n), base, 'within a second');
'''),
dict(id='C35-nothing-before-the-window', property='C35',
 needs='a ledger time within 24 hours of the epoch, as on a fresh local network',
 breaks='when the ledger time is less than the transaction window every creation time is taken for too old',
 edits=[(ST, '''    if created_at_time
        .saturating_add(config::TRANSACTION_WINDOW.as_nanos() as u64)
        .saturating_add(config::PERMITTED_DRIFT.as_nanos() as u64)
        < now
    {
        return Err(CreatedAtTimeValidationError::TooOld);''', '''    let Some(oldest) = now.checked_sub(
        (config::TRANSACTION_WINDOW + config::PERMITTED_DRIFT).as_nanos() as u64,
    ) else {
        return Err(CreatedAtTimeValidationError::TooOld);
    };
    if *created_at_time < oldest {
        return Err(CreatedAtTimeValidationError::TooOld);''')],
 demo='''
const run = (t0) => { const t = new T({ time: t0 }), a = acc(A); t.dep(a, 50n * FEE); t.pass(5n * SEC); const r = [];
  for (const d of [0n, -SEC, DRIFT, DRIFT + 1n]) { const x = t.xfer(a, acc(B), 1n, { cat: t.now + d }); r.push(x.Err ? Object.keys(x.Err)[0] : 'Ok'); } return r; };
const base = run(1_700_000_000n * SEC);
eq(base, ['Ok', 'Ok', 'Ok', 'CreatedInFuture'], 'today'); eq(run(3600n * SEC), base, 'an hour after the epoch'); eq(run(30n * 3600n * SEC), base, 'thirty hours after the epoch');
'''),
dict(id='C35-approvals-until-2106', property='C35',
 needs='a ledger time after the year 2106',
 breaks='approvals without an expiry are taken to expire when 32 bits of seconds run out, so they are refused from then on',
 edits=[(CO, 'pub const REMOTE_FUTURE: u64 = u64::MAX;', 'pub const REMOTE_FUTURE: u64 = u32::MAX as u64 * 1_000_000_000;')],
 demo='''
const run = (t0) => { const t = new T({ time: t0 }), a = acc(A); t.dep(a, 50n * FEE); t.appr(a, acc(B), 5n * FEE); const x = t.xfrom(acc(B), a, acc(C), FEE); return [x.Ok !== undefined, t.alw(a, acc(B)).a]; };
const base = run(1_700_000_000n * SEC); eq(base, [true, 3n * FEE], 'today'); eq(run(4_300_000_000n * SEC), base, 'in 2106');
'''),
]
