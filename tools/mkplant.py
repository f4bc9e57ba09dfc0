#!/opt/venv/bin/python
"""Usage: mkplant.py ID PROPERTY FILE  (json on stdin: edits [[old,new],...], needs, breaks, demo (python source))

Writes /verif/seeded/ID from an edit of FILE; the demo is run by /opt/venv/bin/python in /repo, inside a scratch directory."""
import difflib, json, os, subprocess, sys
i, pid, *_ = sys.argv[1:]
ns = {}
exec(sys.stdin.read(), ns)
d = f'/verif/seeded/{i}'
os.makedirs(d, exist_ok = True)
edits = ns['edits']  # (file, old, new)
out, texts = '', {}
for f, old, new in edits:
    t = texts.setdefault(f, [open('/repo/' + f).read()] * 1 + [None])
    cur = t[1] or t[0]
    assert cur.count(old) == 1, (f, cur.count(old), old)
    t[1] = cur.replace(old, new)
for f, (a, b) in texts.items():
    out += f'diff --git a/{f} b/{f}\n' + ''.join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f))
open(d + '/patch.diff', 'w').write(out)
json.dump(dict(property = pid, needs = ns['needs'], what_it_breaks = ns['breaks']), open(d + '/meta.json', 'w'), indent = 1)
open(d + '/demo.py', 'w').write('import os, sys, tempfile, warnings\nwarnings.simplefilter("ignore")\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n'
                                'import numpy as np\n' + ns['demo'].lstrip('\n'))
open(d + '/demo.sh', 'w').write('#!/bin/bash\nS=$(mktemp -d)\ntrap \'rm -rf "$S"\' EXIT\nexport SCRATCH="$S" OMP_NUM_THREADS=1\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d + '/demo.sh', 0o755)
