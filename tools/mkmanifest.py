#!/usr/bin/env python3
"""Writes MANIFEST.json from checkcfg and properties.jsonl (run from /verif)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from checkcfg import CHECKS
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p['id'])
    if not c:
        na.append(dict(property=p['id'], reason='check under construction'))
        continue
    note = c.get('note') or ('Real code run under generated workloads while a monitor judges every execution: no violation on the executions explored; says nothing about others. Assumes: ' + '; '.join(c.get('assumptions', [])) + '.')
    checks.append(dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check ' + p['id'],
                       technique=c['technique'], level=c['level'], level_note=note))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='Each check builds harness/ (a Go test binary that imports /repo through a replace directive), runs it in shards of child processes and merges what the monitors observed. No hooks in /repo.'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
