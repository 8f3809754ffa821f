#!/usr/bin/env python3
"""Writes ../MANIFEST.json from the registry and the property list."""
import json
import os
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
sys.dont_write_bytecode = True
from sa.registry import REGISTRY, MANIFEST_NOTES, NOT_APPLICABLE  # noqa
from tools.props import P  # noqa

ids = [x['id'] for x in P]
checks = []
for i in ids:
    if i not in REGISTRY:
        continue
    tech, note = MANIFEST_NOTES[i]
    checks.append({
        'property': i,
        'quick_cmd': 'python3 run.py %s quick' % i,
        'thorough_cmd': 'python3 run.py %s thorough' % i,
        'technique': tech,
        'level': 'other',
        'level_note': note,
    })
na = [{'property': i, 'reason': NOT_APPLICABLE.get(
    i, 'no check built yet in this session')}
    for i in ids if i not in REGISTRY]
json.dump({
    'version': 1,
    'setup_cmd': 'python3 -c "import ast, sys; sys.exit(0)"',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Static analysis only: every check parses the current source '
             'of /repo and decides from the syntax trees; nothing of the '
             'package is imported or run.',
}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
