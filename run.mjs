// usage: node run.mjs <PROPERTY|all> [--tier quick|thorough] [--replay FILE] [--n EPISODES] [--secs S] [--only NAME] [--keep-going]
// Builds the canister from /repo, runs it under the monitors, writes evidence/<id>.json.
import fs from 'node:fs';
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads';
import { build, released } from './engine/build.mjs';
import { Rng } from './engine/rng.mjs';
import { meter } from './engine/meter.mjs';

const ROOT = new URL('.', import.meta.url).pathname;
export const toJson = (v, ind) => JSON.stringify(v, (k, x) => typeof x === 'bigint' ? x.toString() + 'n' : x instanceof Uint8Array ? Buffer.from(x).toString('hex') : x, ind);
export const fromJson = (s) => JSON.parse(s, (k, x) => typeof x === 'string' && /^-?\d+n$/.test(x) ? BigInt(x.slice(0, -1)) : x);
const BD = process.env.VERIF_BUILD ?? ROOT + 'build';
const TIERS = { quick: { episodes: 800, secs: 60, reps: 1 }, thorough: { episodes: 20000, secs: 420, reps: 12 } };

if (isMainThread) await main(); else await worker();

async function main() {
  const a = process.argv.slice(2), opt = (k, d) => { const i = a.indexOf('--' + k); return i < 0 ? d : a[i + 1]; };
  const prop = a[0], tier = opt('tier', process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick'), seed = Number(process.env.VERIF_SEED ?? 1) || 0;
  const t0 = Date.now(), T = TIERS[tier];
  const { META } = await import('./monitors/index.mjs');
  const props = prop === 'all' ? Object.keys(META) : [prop];
  for (const p of props) if (!META[p]) { console.error('unknown property ' + p); process.exit(2); }
  const replay = opt('replay', null);
  const flavors = opt('flavors', null)?.split(',') ?? (prop === 'all' || (replay && prop !== 'C30') ? ['vprel', 'vpchk'] : META[prop].flavors?.[tier] ?? ['vprel']);
  let wasm;
  try { wasm = build(flavors, opt('pkgs', null)?.split(',') ?? (META[prop] ?? META.C30).pkgs); } catch (e) { console.error('build failed: ' + e.message); process.exit(2); }
  const buildS = (Date.now() - t0) / 1000;
  const all = Object.entries(wasm).map(([k, f]) => [k, new WebAssembly.Module(META[prop]?.meter ? meter(fs.readFileSync(f)) : fs.readFileSync(f))]);
  const modules = Object.fromEntries(all.filter(([k]) => !k.includes(':'))), companions = Object.fromEntries(all.filter(([k]) => k.endsWith(':vprel')).map(([k, m]) => [k.split(':')[0], m]));
  const old = new WebAssembly.Module(released());
  if (replay) return replayMain(replay, modules, old, companions);
  const n = Number(opt('n', META[prop]?.episodes?.[tier] ?? T.episodes)), secs = Number(opt('secs', T.secs)), W = Number(opt('workers', 8));
  const known = JSON.parse(fs.readFileSync(ROOT + 'known-findings.json', 'utf8')).findings.filter((f) => f.status === 'open');
  // one execution that does not come back within two minutes (ordinary ones take milliseconds) is a hang
  const beats = Array.from({ length: W }, () => new Float64Array(new SharedArrayBuffer(16)));
  setInterval(() => {
    const i = beats.findIndex((b) => { const s = b[0]; return s > 0 && Date.now() - s > 120_000; }); if (i < 0) return;
    if (prop !== 'C28') { console.error('no answer: an execution of the canister does not finish (episode number ' + beats[i][1] + ')'); process.exit(2); }
    fs.mkdirSync(BD + '/replay', { recursive: true }); const f = BD + '/replay/C28-hang.json';
    fs.writeFileSync(f, JSON.stringify({ prop, code: 'a request is never answered', hang: beats[i][1], tier, seed, n }));
    console.log(`VIOLATION property=C28 replay=${f}\n  a request is never answered (one message ran for two minutes); episode number ${beats[i][1]}`);
    process.exit(1);
  }, 2000).unref();
  const stop = a.includes('--first') || (prop !== 'all' && !a.includes('--keep-going')) ? new Int32Array(new SharedArrayBuffer(4)) : null;
  const results = await Promise.all(Array.from({ length: W }, (_, i) => new Promise((res, rej) => {
    const w = new Worker(new URL(import.meta.url), { workerData: { beat: beats[i], props, tier, seed, i, W, n, reps: T.reps, deadline: t0 + buildS * 1000 + secs * 1000, modules, only: opt('only', null), keepGoing: prop === 'all' && !a.includes('--first') || a.includes('--keep-going'), stop, known, old, companions } });
    w.on('message', res); w.on('error', rej); w.on('exit', (c) => rej(new Error('worker exit ' + c)));
  }))).catch((e) => { console.error('harness failure: ' + (e && e.stack)); process.exit(2); });
  let rc = 0;
  const EV = process.env.VERIF_EVIDENCE ?? ROOT + 'evidence'; fs.mkdirSync(EV, { recursive: true });
  for (const p of props) {
    const keys = new Set(), samples = [], extra = {}; let evals = 0, seen = new Set();
    for (const r of results) { const m = r.mons[p]; evals += m.evals; for (const k of m.keys) keys.add(k); for (const [k, s] of m.samples) if (samples.length < 12 && !seen.has(k)) { seen.add(k); samples.push({ case: k, observed: s }); } for (const [k, v] of Object.entries(m.extra)) extra[k] = (extra[k] ?? 0) + v; }
    const viols = results.flatMap((r) => r.viols.filter((v) => v.prop === p)), kn = results.flatMap((r) => r.known.filter((v) => v.prop === p));
    const sum = (k) => results.reduce((x, r) => x + (r[k] ?? 0), 0);
    const world = {}; for (const r of results) for (const [k, v] of Object.entries(r.counters)) world[k] = (world[k] ?? 0) + v;
    const wall = (Date.now() - t0) / 1000;
    const ev = { property: p, tier, seed, level: META[p].level ?? 'exploration',
      coverage: { evaluations: evals, distinct_nontrivial: keys.size, rule: META[p].rule, samples: JSON.parse(toJson(samples)), workload: { episodes: sum('episodes'), planned_episodes: results[0].planned, cut_by_time: sum('cut'), aborted_episodes: sum('aborted'), operations_and_events: world.segments, blocks_recorded: world.blocks, calls_by_outcome: Object.fromEntries(Object.entries(world).filter(([k]) => k.startsWith('call:')).sort()), answers_delivered: Object.fromEntries(Object.entries(world).filter(([k]) => k.startsWith('answer:')).sort()), upgrades: world.upgrades ?? 0, most_in_flight: Math.max(...results.map((r) => r.maxInflight)), canister_executions: world.execs, builds: flavors, most_distinct_histories: sum('histories') }, monitor: extra },
      assumptions: META[p].assumptions, wall_s: Math.round(wall * 10) / 10, violations: viols.length };
    fs.writeFileSync(`${EV}/${p}.json`, JSON.stringify(ev, null, 1) + '\n');
    for (const f of known.filter((f) => f.property === p)) if (kn.some((k) => k.known === f.id) || true) console.log(`KNOWN-FINDING: property=${p} ${f.what}`);
    if (viols.length) {
      rc = 1;
      fs.mkdirSync(BD + '/replay', { recursive: true });
      viols.sort((x, y) => x.trace.length - y.trace.length);
      const codes = new Set();
      for (const v of viols) {
        if (codes.has(v.code)) continue; codes.add(v.code); if (codes.size > 6) break;
        const f = `${BD}/replay/${p}-${codes.size}.json`; fs.writeFileSync(f, toJson({ ...v, tier, seed }, 1));
        console.log(`VIOLATION property=${p} replay=${f}`);
        console.log(`  ${v.code}\n  ${toJson(v.detail).slice(0, 1200)}\n  episode ${v.episode}, flavor ${v.flavor}, after ${v.trace.length} trace lines; replay: node run.mjs ${p} --replay ${f}`);
      }
    } else if (prop !== 'all') {
      const min = META[p].min ?? 8;
      if (sum('episodes') === 0 || evals === 0 || keys.size < min) { console.error(`inconclusive: ${evals} evaluations, ${keys.size} distinct situations`); rc = 2; }
    }
    if (prop !== 'all') console.log(`${p}: ${rc === 0 ? 'held' : rc === 1 ? 'VIOLATED' : 'no answer'} on ${evals} judgements in ${keys.size} distinct situations; ${sum('episodes')} episodes, ${world.segments} steps, ${world.blocks} blocks; build ${buildS.toFixed(1)} s, total ${wall.toFixed(1)} s`);
    else console.log(p, 'evals', evals, 'distinct', keys.size, 'violations', viols.length);
  }
  const errs = results.flatMap((r) => r.errors);
  if (errs.length) { console.error(`${errs.length} episodes ended in a harness error; first: ${errs[0]}`); if (rc === 0 && prop !== 'all') rc = 2; }
  const ab = results.flatMap((r) => r.aborts); if (ab.length) console.error(`${ab.length} episodes aborted; first: ${ab[0]}`);
  if (prop === 'all') console.log(results.reduce((x, r) => x + r.episodes, 0), 'episodes', results.reduce((x, r) => x + (r.counters.segments ?? 0), 0), 'segments', (Date.now() - t0) / 1000, 's', toJson(results[0].slow));
  process.exit(rc);
}

async function setup() {
  const { newMonitors } = await import('./monitors/index.mjs');
  const { World, Stop } = await import('./engine/world.mjs');
  const { CandidError } = await import('./engine/candid.mjs');
  return { newMonitors, World, Stop, CandidError };
}

async function worker() {
  const { beat, stop, props, tier, seed, i, W, n, reps, deadline, modules, only, keepGoing, known, old, companions } = workerData;
  const { newMonitors, World, Stop, CandidError } = await setup();
  const { SCENARIOS } = await import('./workloads/directed.mjs');
  const { randomEpisode } = await import('./workloads/random.mjs');
  const { PLANS } = await import('./workloads/plans.mjs');
  const mons = newMonitors(props);
  const out = { episodes: 0, cut: 0, aborted: 0, viols: [], known: [], errors: [], aborts: [], counters: {}, maxInflight: 0, histories: 0, slow: [] };
  const hist = new Set();
  const { Canister, Cut } = await import('./engine/replica.mjs'); Canister.beat = beat;
  // an episode may overrun the time of the check, within limits
  Canister.over = () => (stop && stop[0]) || Date.now() > deadline + 60_000;
  const prop = props.length === 1 ? props[0] : 'all';
  const flavors = Object.keys(modules);
  const plan = [];
  const want = (name) => !only || name.startsWith(only);
  const P = PLANS(prop, tier);
  for (let k = 0; k < P.reps; k++) for (const s of SCENARIOS) for (let v = 0; v < Math.max(1, Math.round(s.variants * P.weight(s.name))); v++) if (P.weight(s.name) > 0 && want(s.name) && !(s.tier && s.tier !== tier) && !(s.props && prop !== 'all' && !s.props.includes(prop))) plan.push({ name: s.name, v, k, run: (mk, r) => s.run(mk, r, k === 0 ? v : v + k * s.variants) });
  const nd = plan.length;
  const profiles = P.profiles;
  for (let j = 0; j < n; j++) { const p = profiles[j % profiles.length]; if (want('random-' + p)) plan.push({ name: 'random-' + p, v: j, k: 0, run: (mk, r) => randomEpisode(mk, r, p) }); }
  // every scenario's variants are spread over the run, those chosen for this property towards its beginning, with random episodes between them
  const per = new Map(); for (const e of plan.slice(0, nd)) per.set(e.name, Math.max(per.get(e.name) ?? 0, e.v + 1));
  const at = (e) => (e.k + e.v / per.get(e.name) * (P.weight(e.name) > 1 ? 0.3 : 1)) / P.reps;
  const order = plan.map((e, x) => [x < nd ? at(e) : (x - nd) / Math.max(1, plan.length - nd), x]).sort((p, q) => p[0] - q[0] || p[1] - q[1]).map((e) => e[1]);
  out.planned = plan.length;
  for (let q = i; q < order.length; q += W) {
    if (Date.now() > deadline) { out.cut++; continue; }
    const e = plan[order[q]]; beat[1] = q; const id = `${e.name}#${e.v}.${e.k}`; const r = new Rng(`${seed}/${prop}/${id}`);
    const fl = flavors[(order[q] + (order[q] >> 3)) % flavors.length]; let w = null; const t = Date.now();
    const sink = (v) => {
      const rec = { prop: v.prop, code: v.code, detail: v.detail, episode: id, flavor: fl, opts: v.world.opts, trace: v.world.trace.slice() };
      const kn = known.find((f) => f.property === v.prop && f.code === v.code && Object.entries(f.match ?? {}).every(([k2, x]) => toJson(v.detail && v.detail[k2]) === toJson(x)));
      if (kn) { out.known.push({ prop: v.prop, known: kn.id }); return; }
      if (out.viols.filter((x) => x.prop === v.prop).length < 3) out.viols.push(rec);
    };
    const mk = (o) => { w = new World({ module: modules[fl], flavor: fl, monitors: Object.values(mons), sink, upgradeModule: flavors.length > 1 ? modules[flavors.find((f) => f !== fl)] : null, ...o, ...(o.released ? { module: old, upgradeModule: modules[fl] } : {}) }); w.opts = o; w.episode = id; return w; };
    mk.companions = companions;
    try { e.run(mk, r); } catch (x) {
      if (x instanceof Cut) out.cut++;
      else if (x instanceof Stop) { if (!w.viol) { out.aborted++; out.aborts.push(id + ': ' + x.message); } }
      else if (x instanceof CandidError && mons.C27) sink({ prop: 'C27', code: 'an answer does not decode at the published interface', detail: { error: x.message, stack: x.stack.split('\n').slice(1, 5) }, world: w });
      else if (x instanceof CandidError) { out.aborted++; out.aborts.push(id + ': ' + x.message); }
      else out.errors.push(id + ' ' + fl + ': ' + (x && x.stack));
    }
    out.episodes++;
    if (w) {
      for (const [k, v] of Object.entries(w.counters)) out.counters[k] = (out.counters[k] ?? 0) + v;
      out.counters.segments = (out.counters.segments ?? 0) + w.segs; out.counters.blocks = (out.counters.blocks ?? 0) + w.chain.length; out.counters.upgrades = (out.counters.upgrades ?? 0) + w.upgrades; out.counters.execs = (out.counters.execs ?? 0) + w.can.stats.execs;
      out.maxInflight = Math.max(out.maxInflight, w.maxInflight ?? 0); hist.add(w.chain.map((b) => b.op && b.op[0]).join('') + w.segs);
      out.slow.push([Date.now() - t, id, w.segs]);
    }
    if (stop && out.viols.length + out.errors.length) stop[0] = 1;
    if ((out.viols.length && !keepGoing) || (stop && stop[0])) break;
  }
  out.histories = hist.size; out.slow.sort((x, y) => y[0] - x[0]); out.slow = out.slow.slice(0, 6);
  out.mons = Object.fromEntries(Object.entries(mons).map(([p, m]) => [p, { evals: m.evals, keys: [...m.keys], samples: [...m.samples], extra: m.extra }]));
  parentPort.postMessage(JSON.parse(toJson(out)));
}

async function replayMain(file, modules, old, companions) {
  const v = fromJson(fs.readFileSync(file, 'utf8'));
  const { newMonitors, World, Stop } = await setup();
  const { unhex } = await import('./engine/candid.mjs');
  const mons = newMonitors([v.prop]); let hit = 0;
  const sink = (x) => { hit++; console.log(`VIOLATION property=${x.prop} replay=${file}\n  ${x.code}\n  ${toJson(x.detail)}`); };
  const w = new World({ module: modules[v.flavor] ?? modules.vprel, flavor: v.flavor, monitors: Object.values(mons), sink, upgradeModule: modules[v.flavor === 'vprel' ? 'vpchk' : 'vprel'], ...v.opts, ...(v.opts.released ? { module: old, upgradeModule: modules[v.flavor] } : {}) }); w.opts = v.opts;
  if (v.prop === 'C30' || v.prop === 'C31') { // several canisters: the episode is run again from its seed
    const { SCENARIOS } = await import('./workloads/directed.mjs'), [, name, n, k] = /^(.*)#(\d+)\.(\d+)$/.exec(v.episode), s = SCENARIOS.find((x) => x.name === name);
    const mk = (o) => { const w2 = new World({ module: modules[v.flavor], flavor: v.flavor, monitors: Object.values(mons), sink, ...o }); w2.opts = o; return w2; }; mk.companions = companions;
    try { s.run(mk, new Rng(`${v.seed}/${v.prop}/${v.episode}`), Number(n) + Number(k) * s.variants); } catch (e) { if (!(e instanceof Stop)) throw e; }
    console.log(hit ? 'reproduced' : 'not reproduced'); process.exit(hit ? 1 : 0);
  }
  try {
    let bulk = [];
    for (const a of v.trace) {
      if (a['='] !== undefined) { console.log('    =>', toJson(a).slice(0, 300)); continue; }
      console.log(toJson(a).slice(0, 400));
      if (a.do === 'install') { if (!w.install()) for (const m of w.monitors) if (m.onFailedInstall) m.onFailedInstall(w); }
      else if (a.do === 'call') w.call(a.method, a.args, { caller: a.caller, cycles: a.cycles, raw: a.raw !== undefined ? unhex(a.raw) : null, faults: a.faults, what: a.what ?? null, enc: a.enc ?? 0 });
      else if (a.do === 'bulk') bulk.push(a);
      else if (a.do === 'bulkend') { w.bulk(bulk); bulk = []; }
      else if (a.do === 'pair') w.knowPair(...a.pair);
      else if (a.do === 'respond') w.respond(a.callId, { ...a.resp, data: a.resp.data === undefined ? undefined : unhex(a.resp.data) });
      else if (a.do === 'time') w.advanceTo(a.t);
      else if (a.do === 'upgrade') w.upgrade(a.arg ?? undefined, { raw: a.raw !== undefined ? unhex(a.raw) : undefined, expectTrap: a.expectTrap, module: a.flavor ? w.upgradeModule : undefined });
    }
    w.end();
  } catch (e) { if (!(e instanceof Stop)) throw e; }
  console.log(hit ? 'reproduced' : 'not reproduced');
  process.exit(hit ? 1 : 0);
}
