#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry (one check per property that has units)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/lib')
import registry
NA = dict(registry.NOT_APPLICABLE)
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    pid = json.loads(l)['id']
    if pid in registry.CHECKS:
        c = registry.CHECKS[pid]
        checks.append(dict(property=pid, quick_cmd='./check %s --tier quick' % pid, thorough_cmd='./check %s --tier thorough' % pid,
            technique=c.get('technique', 'symbolic execution of the LLVM bitcode of the real code, Z3 deciding every assertion; counterexamples replayed natively'),
            level='model_checking', level_note=c.get('note', 'Holds for all inputs within the bounds listed in the evidence (%s). Outside: %s. Trusts the bitcode interpreter (validated per run by native replay), Z3 and the mini C library.' % ('; '.join(u['name'] for u in c['units']), c.get('outside', 'larger sizes')))))
    else: na.append(dict(property=pid, reason=NA.get(pid, 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='./check setup', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
