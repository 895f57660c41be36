#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
from checks import CHECKS
ids = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 check.py --selftest',
         checks=[dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 check.py {i}',
                      evidence_file=f'evidence/{i}.json', technique=CHECKS[i]['technique'], level=CHECKS[i]['level'],
                      level_note=CHECKS[i]['rule'] + ' Assumes: ' + '; '.join(CHECKS[i]['assumptions'])) for i in ids if i in CHECKS],
         not_applicable=[dict(property=i, reason='check not built yet') for i in ids if i not in CHECKS],
         notes='No hooks in /repo are needed: the monitors sit at the public interface, the libc boundary (getrandom, malloc, file calls) and in compiler/valgrind instrumentation.')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks')
