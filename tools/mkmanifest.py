#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a harness."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = set()
for f in glob.glob(V + '/harness/props/*.go'):
    have |= set(re.findall(r'^func ([A-Z]\d\d)_\w+\(\)', open(f).read(), re.M))
notes = {}
exec(open(V + '/tools/notes.py').read()) if os.path.exists(V + '/tools/notes.py') else None
na = {}
checks, nas = [], []
for p in props:
    i = p['id']
    if i in have and i not in na:
        conc = i in ('C01', 'C02', 'C03')
        checks.append({
            'property': i,
            'quick_cmd': f'./check.sh {i} quick',
            'thorough_cmd': f'./check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'symbolic execution of the Go SSA with an SMT solver' + (', schedules as decision variables' if conc else '') + ('; happens-before race detection on every path' if i == 'C02' else ''),
            'level': 'model_checking',
            'level_note': notes.get(i, 'Bounded: every input within the bounds in the evidence file is decided by the solver; larger inputs are not covered. Trusts the executor\'s model of Go and of the modelled library functions, and the solver.'),
        })
    else:
        nas.append({'property': i, 'reason': na.get(i, 'no check yet')})
m = {'version': 1, 'setup_cmd': './check.sh --setup', 'checks': checks, 'not_applicable': nas,
     'notes': 'No hooks in /repo: the harnesses use the public API, and scheduling points are inserted through a build overlay.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(V + '/MANIFEST.json', 'a').write('\n')
