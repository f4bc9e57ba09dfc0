#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the property modules present in pbt/props.

The first line of a module's docstring names the oracle (technique); the rest is the level note.
"""
import ast, json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    path = os.path.join(HERE, 'pbt', 'props', pid.lower() + '.py')
    if not os.path.exists(path):
        na.append(dict(property = pid, reason = 'Within reach of property-based testing, but no check has been built for it yet.'))
        continue
    doc = ast.get_docstring(ast.parse(open(path).read())) or pid
    first, _, rest = doc.partition('\n')
    first = first.split(': ', 1)[-1].rstrip('.')
    note = ' '.join(rest.split())
    checks.append(dict(property = pid, quick_cmd = f'./check.py {pid} --tier quick', thorough_cmd = f'./check.py {pid} --tier thorough',
                       evidence_file = f'evidence/{pid}.json',
                       technique = 'property-based testing (Hypothesis generators with shrinking): ' + first, level = 'exploration',
                       level_note = ('Generated cases only: no guarantee beyond the cases drawn. ' + note).strip()))
m = dict(version = 1, setup_cmd = './check.py --selftest', checks = checks, not_applicable = na,
         notes = 'All checks call the public Python API of /repo in-process; no hooks in /repo are needed. See DESIGN.md.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
    json.dump(m, fp, indent = 1)
    fp.write('\n')
print(len(checks), 'claimed,', len(na), 'not')
