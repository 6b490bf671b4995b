#!/usr/bin/env python3
"""Regenerates MANIFEST.json from vlib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, os.path.join(V, 'vlib'))
sys.dont_write_bytecode = True
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
ids = [p['id'] for p in props]
m = {'version': 1,
     'setup_cmd': 'bash bin/setup',
     'checks': [{'property': i, 'quick_cmd': 'bin/check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + i,
                 'evidence_file': 'evidence/%s.json' % i, 'technique': checks.CHECKS[i]['technique'],
                 'level': checks.CHECKS[i]['level'], 'level_note': checks.CHECKS[i]['note']} for i in ids if i in checks.CHECKS],
     'not_applicable': [{'property': i, 'reason': checks.NOT_APPLICABLE.get(i, 'its check is still being built')} for i in ids if i not in checks.CHECKS],
     'notes': 'TLA+ specifications in spec/, checked with TLC; behaviours TLC emits are replayed into the real packages by the Go drivers in harness/. No hooks in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
