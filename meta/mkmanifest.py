#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, '..', 'checks')); sys.path.insert(0, here)
import props
try:
    import registry
    REG, NA = registry.CHECKS, registry.NOT_APPLICABLE
except ImportError:
    REG, NA = {}, {}
checks, na = [], []
for d in props.P:
    i = d['id']
    if i in REG:
        r = REG[i]
        checks.append(dict(property=i, quick_cmd=f'python3 checks/run.py {i}', thorough_cmd=f'python3 checks/run.py {i} --thorough',
                           technique=r['technique'], level=r.get('level', 'other'), level_note=r['note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='bash checks/setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
