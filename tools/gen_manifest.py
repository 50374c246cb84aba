#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
cl = []
for p in ids:
    if p not in checks.CHECKS: continue
    c = checks.CHECKS[p]
    q = [r['bounds'] for r in c['runs'] if not r.get('thorough')]
    cl.append(dict(property=p, quick_cmd='python3 run.py %s quick' % p, thorough_cmd='python3 run.py %s thorough' % p,
        technique=c.get('technique', 'symbolic execution of the compiled code (LLVM IR generated from the current source) with an SMT solver (z3) deciding branches and assertions'),
        level='model_checking', level_note='Bounded: ' + '; '.join(q) + '. Outside: ' + c['outside'] + '.'))
json.dump(dict(version=1, checks=cl, not_applicable=[dict(property=p, reason=checks.NOT_APPLICABLE.get(p, 'check not built yet')) for p in ids if p not in checks.CHECKS],
    setup_cmd='tools/prep.sh p01'), open(V + '/MANIFEST.json', 'w'), indent=1)
