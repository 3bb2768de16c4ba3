#!/usr/bin/env python3
"""Write MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 check.py setup', checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p, evidence_file='evidence/%s.json' % p,
                                technique=c.get('technique', 'symbolic execution of the LLVM IR of the real code, decided by Z3'), level=c.get('level', 'model_checking'),
                                level_note='Holds for every value within the bounds: ' + c['bounds'] + '. Trusted: the executor and its models of libc and the file system (symex/), Z3, and the compiler up to LLVM IR; counterexamples are replayed natively before being reported.'))
    else:
        m['not_applicable'].append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'no check has been built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
