import json,os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
NOTE="Held on the executions of this run (counted in the evidence file), not proved. Trusts the mini-replica (engine/replica.mjs) to follow the IC interface specification, the candid/CBOR codecs of the harness, and an honest management canister and CMC; every verdict comes from observed behaviour of the compiled canister."
TECH={"C23":"runtime monitor: listings compared with the replayed log",}
T={
"C01":"online conservation monitor over recorded executions of the compiled canister",
"C02":"offline log-replay oracle compared with reported state after every step",
"C03":"online receipt monitor matching calls, answers and recorded blocks",
"C04":"online conservation monitor of canister cycles with fault injection",
"C05":"before/after state monitor of refused calls",
"C06":"online balance-effect monitor with all accounts observed",
"C07":"online authorization monitor over all balance and allowance changes",
"C08":"online allowance monitor against the replayed log",
"C09":"online expiry monitor with a controlled clock",
"C10":"online compare-and-set monitor",
"C11":"exactly-once checker over recorded histories",
"C12":"online window monitor with a controlled clock",
"C13":"online fee monitor",
"C14":"online funds monitor with boundary workloads",
"C15":"online deposit monitor with cycle accounting",
"C16":"exactly-once settlement monitor with injected failures and reordered answers",
"C17":"exactly-once settlement monitor with injected failures and reordered answers",
"C18":"settlement monitor against the replayed allowance at the moment of the answer",
"C19":"offline hash-chain checker with re-reads",
"C20":"online certificate verifier (hash tree recomputed)",
"C21":"query monitor against the recorded log",
"C22":"schema monitor over every recorded block",
"C23":"query monitor against the replayed allowances",
"C24":"before/after monitor of upgrades at injected points",
"C25":"invariant monitor on table sizes",
"C26":"online validation monitor",
"C27":"interface monitor decoding every answer at its published type",
"C28":"totality monitor on release and overflow-checked builds",
"C29":"installation monitor over generated configurations",
"C30":"runtime monitor of the companion canisters",
"C31":"work metering (instrumented Wasm: function entries, loop iterations, stable memory bytes) compared between histories of different sizes",
"C32":"monitor of pairs of executions: the recorded history executed again with accounts respelled",
"C33":"monitor of pairs of executions: the recorded history executed again interleaved with a copy by other users",
"C34":"monitor of pairs of executions: the recorded history executed again with all users renamed",
"C35":"monitor of pairs of executions: the recorded history executed again at another time or behind other blocks",
"C36":"runtime monitor putting each question as several askers, in both modes, and comparing answers and states",
}
FE={"C16","C17","C18","C04"}
checks=[]
for p in props:
    i=p['id']
    checks.append(dict(property=i,quick_cmd=f"node run.mjs {i} --tier quick",thorough_cmd=f"node run.mjs {i} --tier thorough",evidence_file=f"evidence/{i}.json",technique=T[i],level="exploration",level_note=NOTE))
man=dict(version=1,setup_cmd="bash bin/setup.sh",hooks=dict(guard="none",enable="no hooks: the checks run the unmodified sources of /repo compiled to WebAssembly and observe the canister from outside",source_commits=[]),checks=checks,not_applicable=[],notes="See DESIGN.md. Genuine defects found are listed in known-findings.json.")
json.dump(man,open(R+'/MANIFEST.json','w'),indent=1); open(R+'/MANIFEST.json','a').write('\n')
