#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md (between <!-- begin X --> and <!-- end X -->): the table of checks, from the
modules in rv/checks, and the table of planted bugs, from seeded/*/meta.json and tools/seed_results.json."""
import importlib
import json
import os
import re
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'rv'))
sys.dont_write_bytecode = True


def cell(s):
    return ' '.join(s.split()).replace('|', '\\|')


def checks():
    yield '| id | property | workload and oracle | executions quick / thorough |'
    yield '|---|---|---|---|'
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        p = json.loads(line)
        c = importlib.import_module('checks.' + p['id'].lower()).CHECK
        text = c.rule
        if c.__dict__.get('level_note') or getattr(c, 'level_note', None):
            text += '. ' + c.level_note
        if getattr(c, 'assumptions', None):
            text += '. Not judged or assumed: ' + '; '.join(c.assumptions)
        n = c.n * getattr(c, 'batch', 1)
        t = n * c.thorough
        yield '| %s | %s | %s | %d / %d |' % (p['id'], cell(p['title']), cell(text), n, t)


def planted():
    path = os.path.join(HERE, 'tools', 'seed_results.json')
    res = json.load(open(path)) if os.path.exists(path) else {}
    yield '| planted bug | needs | what it breaks | caught by |'
    yield '|---|---|---|---|'
    for name in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', name, 'meta.json')))
        r = res.get(name, {})
        yield '| %s (%s) | %s | %s | %s |' % (name, m['property'], cell(m['needs']), cell(m['what_it_breaks']),
                                             ', '.join(sorted(k for k, v in r.items() if v == 1)) or '-')


path = os.path.join(HERE, 'DESIGN.md')
s = open(path).read()
for key, rows in (('checks', checks()), ('planted', planted())):
    s = re.sub(r'(<!-- begin %s -->\n).*?(<!-- end %s -->)' % (key, key),
               lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), s, flags=re.S)
open(path, 'w').write(s)
