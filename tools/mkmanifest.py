#!/usr/bin/env python3
"""writes MANIFEST.json from bin/suites.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from suites import PROPS
NA = {}
ids = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ('TLC explores the design exhaustively within the constants of the MC configurations; the real code is bound to the '
        'specification by validating every recorded call against it, for the model\'s own histories and seeded random larger ones. '
        'Trusts TLC, the SHA-256 of the JDK, and the projection in harness/src/proj.rs. ')
checks = [dict(property=p, quick_cmd='bin/check %s quick' % p, thorough_cmd='bin/check %s thorough' % p,
               technique='TLA+ specification checked with TLC, bound to the code by trace validation',
               level='model_checking', level_note=NOTE + PROPS[p].get('note', '')) for p in ids if p in PROPS]
m = dict(version=1, setup_cmd='bin/check build', checks=checks,
         not_applicable=[dict(property=p, reason=NA.get(p, 'check not built yet')) for p in ids if p not in PROPS],
         notes='No hooks in /repo: everything observed is public API.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
