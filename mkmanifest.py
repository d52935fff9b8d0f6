#!/usr/bin/env python3
"""Write MANIFEST.json from the check modules present (development tool)."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(here, 'techniques.json')))
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(here, 'mon', p.lower() + '.py')) and p in TECH:
        checks.append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': './check %s --thorough' % p,
                       'technique': TECH[p][0], 'level': 'exploration', 'level_note': TECH[p][1]})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: every monitor observes at the client boundary. See DESIGN.md.'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
