#!/usr/bin/env python3
"""mkseed.py FILE.py [id...]: builds /verif/seeded/<id> from definitions, after confirming each in a scratch copy.

FILE.py calls seed(id, prop, edits, pkg, demo, needs, breaks); edits = [(file, old, new)], demo is the body
of a Go test file of package pkg (test function TestZZDemo)."""
import sys, os, subprocess, json, shutil
SEEDS = []
def seed(id, prop, edits, pkg, demo, needs, breaks): SEEDS.append((id, prop, edits, pkg, demo, needs, breaks))
exec(open(sys.argv[1]).read())
only = [a for a in sys.argv[2:] if not a.startswith('-')]
nocheck = '-n' in sys.argv
WT = '/tmp/seedwt'
def sh(c, cwd=None, t=900):
    p = subprocess.run(['bash', '-c', c], cwd=cwd, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr
DEMO = '''#!/bin/bash
# run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo.go.txt"}}' "$PWD" "$here" > "$t/o.json"
go test -count=1 -vet=off -overlay "$t/o.json" -run '^TestZZDemo$' ./%(pkg)s
'''
b = json.load(open('/opt/vp/BASELINE.json'))
st = b.get('stable_tests') or b.get('tests') or b.get('passed') or b
st = set(st if isinstance(st, list) else st.get('stable', st))
shutil.rmtree(WT, ignore_errors=True)
sh(f'cp -a /repo {WT}')
for id, prop, edits, pkg, demo, needs, breaks in SEEDS:
    if only and id not in only: continue
    sh('git checkout -q -- . && git clean -fdq', WT)
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.sh', 'w').write(DEMO % {'pkg': pkg})
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.go.txt', 'w').write(demo.strip() + '\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    r0, o0 = sh(f'{d}/demo.sh', WT)
    bad = ''
    for f, old, new in edits:
        s = open(f'{WT}/{f}').read()
        if s.count(old) != 1: bad = f'{f}: {s.count(old)} matches'; break
        open(f'{WT}/{f}', 'w').write(s.replace(old, new))
    if bad: print(id, 'BAD EDIT', bad); continue
    sh('git diff > ' + d + '/patch.diff', WT)
    rb, ob = sh('. /opt/vp/env.sh; go build ./... && go vet ./... >/dev/null 2>&1; go build ./...', WT)
    r1, o1 = sh(f'{d}/demo.sh', WT)
    # stable tests, through the real repository
    rc, o = sh(f'git -C /repo apply {d}/patch.diff && bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/seedt.json >/dev/null 2>&1')
    t = json.load(open('/tmp/seedt.json'))
    miss = st - set(t['passed'])
    rk, ok = (None, '')
    if not nocheck:
        rk, ok = sh(f'cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check.sh {prop} quick')
    sh('git -C /repo checkout -- .')
    v = [l for l in ok.splitlines() if l.startswith('VIOLATION')]
    print(id, prop, 'clean demo', r0, '| build', rb, '| patched demo', r1, '| tests missing', len(miss), list(miss)[:3], '| check', rk, v[:1], flush=True)
    if r0: print(o0[-1500:])
    if rb: print(ob[-800:])
shutil.rmtree(WT, ignore_errors=True)
