#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py, claims.py and the units."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P
from claims import CLAIMS, NA
from runner import load_units, VERIF
us = load_units()
if '--check' not in sys.argv: open(VERIF + '/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in P))
checks, na = [], []
for x in P:
    i = x['id']
    mine = [u for u in us if u['prop'] == i]
    if i in CLAIMS and mine:
        kinds = [u.get('kind', 'proof') for u in mine]
        checks.append({'property': i, 'quick_cmd': 'python3 vf/runner.py %s quick' % i, 'thorough_cmd': 'python3 vf/runner.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'contract-based deductive verification: CBMC code contracts (goto-instrument --dfcc) on the real C sources',
                       'level': 'proof' if 'proof' in kinds else 'other', 'level_note': CLAIMS[i]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
m = {'version': 1, 'setup_cmd': 'python3 vf/gen.py --check', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: contracts are attached from /verif/units to the sources as they are. Known findings: known_findings.json.'}
if '--check' not in sys.argv:
    json.dump(m, open(VERIF + '/MANIFEST.json', 'w'), indent=1)
else:
    import shutil
    for t in ('goto-cc', 'goto-instrument', 'cbmc', 'gcc', 'z3'):
        assert shutil.which(t), t
    print('ok: %d units' % len(us))
