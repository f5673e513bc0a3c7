#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
import mantab
checks, na = [], []
for p in props:
    i = p['id']
    if i in mantab.NA:
        na.append({'property': i, 'reason': mantab.NA[i]})
    else:
        t, note = mantab.T[i]
        checks.append({'property': i, 'quick_cmd': 'python3 sa/check.py %s' % i, 'thorough_cmd': 'python3 sa/check.py %s --tier thorough' % i,
                       'technique': t, 'level': 'other', 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'python3 sa/ir.py --selftest', 'checks': checks, 'not_applicable': na,
           'notes': 'Pure Python over clang -emit-llvm output of /repo; nothing is executed from /repo and nothing is installed. No hooks are needed in /repo.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
