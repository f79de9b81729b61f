#!/usr/bin/env python3
import json, sys
sys.path.insert(0, '/verif/lib')
from props import PROPS, NOT_APPLICABLE
checks = []
for pid in sorted(PROPS):
    P = PROPS[pid]
    checks.append(dict(property=pid, quick_cmd='python3 check.py %s' % pid, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % pid,
                       technique=P['technique'], level=P['level'], level_note=P['note']))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT_APPLICABLE.items()) if k not in PROPS],
               notes='No hooks are needed in /repo: the checks work on scratch copies of its sources, made on every run.'),
          open('/verif/MANIFEST.json', 'w'), indent=1)
