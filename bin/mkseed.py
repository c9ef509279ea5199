#!/usr/bin/env python3
"""usage: mkseed.py SPECFILE [ID...]   write /verif/seeded/ID from the specifications in SPECFILE,
confirm the demonstration on the clean tree and on the changed one, and run the property's check
against the changed tree (in a scratch copy of /repo). Results go to stdout."""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
want = [a for a in sys.argv[2:] if not a.startswith('--')]
nocheck = '--nocheck' in sys.argv
checks = [a[9:] for a in sys.argv if a.startswith('--checks=')]
WORK = os.environ.get('SEEDWORK', '/tmp/seedwork')
os.makedirs(WORK, exist_ok=True)
def sh(cmd, **k):
    t = time.time(); r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return r.returncode, r.stdout, time.time() - t
for s in spec['SEEDS']:
    if want and s['id'] not in want: continue
    d = f"{V}/seeded/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    r = f"{WORK}/repo"; shutil.rmtree(r, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    okp = True
    for path, old, new in s['edits']:
        p = f"{r}/{path}"; t = open(p).read()
        if t.count(old) != 1: print(s['id'], 'EDIT MATCHES', t.count(old), repr(old[:60])); okp = False; break
        open(p, 'w').write(t.replace(old, new))
    if not okp: shutil.rmtree(d); continue
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', 'diff'], cwd=r, text=True))
    open(d + '/meta.json', 'w').write(json.dumps({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, indent=1) + '\n')
    for x in ('engine', 'spec', 'stubs'): shutil.copytree(f'{V}/{x}', f'{d}/{x}', ignore=shutil.ignore_patterns('target', '*.img*', *([] if 'RELEASED' in s['demo'] else ['released*'])))
    os.makedirs(d + '/bin'); shutil.copy(f'{V}/bin/overlay.py', d + '/bin/overlay.py')
    shutil.copy(f'{V}/bin/seedlib/lib.mjs', d + '/lib.mjs'); shutil.copy(f'{V}/bin/seedlib/demo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
    if './comp.mjs' in s['demo']: shutil.copy(f'{V}/bin/seedlib/comp.mjs', d + '/comp.mjs')
    open(d + '/demo.mjs', 'w').write("import { T, S, eq, ok, done, okDeposit, rej, cmcOk, cmcRefunded, cmcRefundFailed, garbage, L, did, FEE, acc, SEC, U128, U64, WINDOW, DRIFT, akey, A, B, C, TARGET, S1, Z32 } from './lib.mjs';\n" + s['demo'].strip() + "\ndone();\n")
    env = {**os.environ}
    # fast path for confirmation here: shared build dirs
    def demo(repo, bd):
        e = {**env, 'VP_REPO': repo, 'VERIF_BUILD': bd}
        return sh(['node', d + '/demo.mjs'], cwd=repo, env=e)
    c0 = demo('/repo', f'{WORK}/b0'); c1 = demo(r, f'{WORK}/b1')
    fmt = sh(['cargo', 'fmt', '--check'], cwd=r)
    good = c0[0] == 0 and c1[0] == 1
    print(f"{s['id']} {s['property']} demo clean={c0[0]} ({c0[2]:.0f}s) patched={c1[0]} ({c1[2]:.0f}s) {'' if good else 'BAD DEMO'}", flush=True)
    if not good: print(c0[1][-1500:]); print('---'); print(c1[1][-1500:])
    else: print('   ', [l for l in c1[1].split('\n') if l.startswith('WRONG')][:1])
    if nocheck: continue
    for pr in ([s['property']] if not checks else checks[0].split(',')):
        c = sh(['node', f'{V}/run.mjs', pr, '--tier', 'quick'], cwd=V, env={**env, 'VP_REPO': r, 'VERIF_BUILD': f'{WORK}/b1', 'VERIF_SEED': '1', 'VERIF_EVIDENCE': f'{WORK}/ev'})
        v = [l for l in c[1].split('\n') if 'VIOLATION' in l or l.startswith('  ')][:2]
        print(f"    check {pr}: rc={c[0]} ({c[2]:.0f}s) {'CAUGHT' if c[0]==1 else 'MISSED'} {v}", flush=True)
        if c[0] not in (0, 1): print(c[1][-1500:])
