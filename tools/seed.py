#!/usr/bin/env python3
"""Builds and tests the planted bugs in seeds.py: seed.py make [ID...] | run [ID...] [--prop P]"""
import json, os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
DEMO = '''#!/bin/bash
# Runs the demonstration beside this script as an in-package test of the tree in the current directory.
dir=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go"}}' "$PWD" "$dir" > "$tmp/overlay.json"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
timeout 250 go test RACE-count=1 -vet=off -overlay "$tmp/overlay.json" -run '^TestDemo$' . || exit 1
'''

def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def make(s):
    d = f'{V}/seeded/{s["id"]}'
    shutil.rmtree(W, ignore_errors=True)
    sh(f'cp -a /repo {W}')
    sh('git checkout -q -- . && git clean -fdq', W)
    for f, old, new in s['edits']:
        t = open(f'{W}/{f}').read()
        assert t.count(old) >= 1, (s['id'], f, old)
        if not s.get('multi'): assert t.count(old) == 1, (s['id'], f, t.count(old), old)
        open(f'{W}/{f}', 'w').write(t.replace(old, new))
    rc, out = sh('gofmt -l .', W)
    if out.strip(): sh('gofmt -w ' + out.replace('\n', ' '), W)
    rc, diff = sh('git diff', W)
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.sh', 'w').write(DEMO.replace('RACE', '-race ' if s.get('race') else ''))
    imports = ['testing'] + s.get('imports', [])
    body = 'package visigoth\n\nimport (\n' + ''.join(f'\t"{i}"\n' for i in sorted(imports)) + ')\n\n' + s['demo'].strip() + '\n'
    open(f'{d}/demo_test.go', 'w').write(body)
    sh(f'gofmt -w {d}/demo_test.go')
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    rc1, o1 = sh('go vet ./... && go test -count=1 ./...', W)
    rc2, o2 = sh(f'bash {d}/demo.sh', W)
    rc3, o3 = sh(f'bash {d}/demo.sh', '/repo')
    ok = rc1 == 0 and rc2 != 0 and rc3 == 0
    print(s['id'], 'OK' if ok else f'BAD tests={rc1} demo_patched={rc2} demo_clean={rc3}', flush=True)
    if not ok: print((o1 if rc1 else '')[-1500:], (o2 if rc2 == 0 else '')[-500:], (o3 if rc3 else '')[-1500:])
    elif 'FAIL' not in o2 and 'DATA RACE' not in o2: print('   demo output?', o2[-800:])
    elif 'build failed' in o2: print('   BUILD', o2[-800:])
    shutil.rmtree(W, ignore_errors=True)

def run(s, props):
    d = f'{V}/seeded/{s["id"]}'
    w = f'{W}_run{os.getpid()}'
    shutil.rmtree(w, ignore_errors=True)
    sh(f'cp -a /repo {w}')
    rc, o = sh(f'git apply {d}/patch.diff', w)
    if rc: print(s['id'], 'does not apply', o); return
    res = []
    try:
        for p in props or [s['prop']]:
            t = time.time()
            rc, o = sh(f'VERIF_REPO={w} bash {V}/check.sh {p} quick', timeout=900)
            v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
            res.append(f'{p}:rc={rc}{"" if not v else " V"} {time.time()-t:.0f}s')
            if rc == 2 or (rc == 1 and not v) or (rc == 0 and p == s['prop']): res.append(o[-700:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print(s['id'], ' '.join(res), flush=True)

mode, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith('-')]
props = None
if '--prop' in sys.argv:
    props = sys.argv[sys.argv.index('--prop') + 1].split(','); ids = [i for i in ids if i not in (sys.argv[sys.argv.index('--prop') + 1],)]
for s in SEEDS:
    if ids and s['id'] not in ids: continue
    make(s) if mode == 'make' else run(s, props)
