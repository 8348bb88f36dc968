#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, R + '/lib')
import registry
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in registry.CHECKS: continue
    f, level = registry.CHECKS[i]; tech, note = registry.NOTES[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=tech, level=level, level_note=note))
m = dict(version=1, setup_cmd='python3 lib/build.py', checks=checks,
         not_applicable=[dict(property=i, reason='no check yet') for i in ids if i not in registry.CHECKS],
         notes='TLA+ specification in spec/, checked with TLC and bound to the code by replaying what TLC generates; see DESIGN.md.')
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
