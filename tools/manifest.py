#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property of which rv/checks has a module."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'rv'))
sys.dont_write_bytecode = True
import importlib

checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if not os.path.exists(os.path.join(HERE, 'rv', 'checks', pid.lower() + '.py')):
        na.append({'property': pid, 'reason': 'no check yet'})
        continue
    c = importlib.import_module('checks.' + pid.lower()).CHECK
    checks.append({
        'property': pid,
        'quick_cmd': 'VERIF_TIER=quick python3 rv/run.py ' + pid,
        'thorough_cmd': 'VERIF_TIER=thorough python3 rv/run.py ' + pid,
        'technique': getattr(c, 'technique', 'runtime monitoring: generated workloads against an independent oracle'),
        'level': c.level,
        'level_note': getattr(c, 'level_note', 'Holds on the executions that were generated and observed (counts and features in the evidence); '
                              'the expectation is computed from what the input was made of, not by parsing it.')})
m = {'version': 1, 'setup_cmd': 'python3 -m py_compile rv/core.py rv/gen.py rv/run.py && java -version', 'checks': checks,
     'not_applicable': na,
     'notes': 'No hooks in /repo: the monitors sit at the public interface and at the boundaries (source, handlers, file system). '
              'Every check starts fresh Jython processes that import /repo\'s working tree.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', [x['property'] for x in na])
