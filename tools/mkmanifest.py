#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import props as P
checks = []
for k, c in sorted(P.PROPS.items()):
    checks.append(dict(property=k, quick_cmd='python3 check.py %s' % k, thorough_cmd='python3 check.py %s --thorough' % k,
                       evidence_file='evidence/%s.json' % k, technique=c.get('technique', P.TECHNIQUE), level=c['level'],
                       level_note=c['note'] if 'note' in c else '%s Kani part: %s; %s.' % (c.get('verus_note', ''), c['scope'], c['label'])))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks,
         not_applicable=[dict(property=k, reason=r) for k, r in sorted(P.NOT_APPLICABLE.items())],
         notes='No hooks: the machinery needs no change to /repo. KNOWN_FINDINGS lists the repaired defects.')
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'MANIFEST.json'), 'w'), indent=1)
