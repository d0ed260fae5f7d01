#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in planted.py: each planted bug is a list of (file, old text, new text) and a demonstration.
The patch is made and both runs of the demonstration are confirmed in a scratch copy of /repo, which is removed afterwards.
usage: plant.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from planted import BUGS
DEMO_SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here:$PWD" LC_ALL=C.UTF-8
exec timeout 280 /opt/venv/bin/python "$here/demo.py"
'''
HEAD = '''# Exits 0 when the behaviour is right, 1 when it is not. Works in a scratch directory of its own.
import logging, os, shutil, sys, tempfile
import numpy as np
logging.disable(logging.CRITICAL)
from hyperstatic.core import Api
WORK = tempfile.mkdtemp(prefix='demo')


def demo():
%s

try:
    ok = demo()
finally:
    shutil.rmtree(WORK, ignore_errors=True)
print('as it should be' if ok else 'WRONG')
sys.exit(0 if ok else 1)
'''


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def plant(b):
    out = os.path.join(ROOT, 'seeded', b['id'])
    os.makedirs(out, exist_ok=True)
    body = '\n'.join('    ' + l if l else '' for l in b['demo'].strip('\n').split('\n'))
    open(os.path.join(out, 'demo.py'), 'w').write(HEAD % body)
    open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    stub = open(os.path.join(ROOT, 'lib', 'quadpy_stub.py')).read()
    open(os.path.join(out, 'quadpy.py'), 'w').write(stub + '''

t2 = types.SimpleNamespace(get_good_scheme=lambda d: _T2(4))
c2 = types.SimpleNamespace(get_good_scheme=lambda d: _C2(), rectangle_points=_rectangle_points)
''')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        r0 = sh(['bash', os.path.join(out, 'demo.sh')], repo)
        for f, old, new in b['edits']:
            p = os.path.join(repo, f)
            t = open(p, newline='').read()
            nl = '\r\n' if '\r\n' in t else '\n'
            old, new = old.replace('\n', nl), new.replace('\n', nl)
            assert t.count(old) >= 1, (b['id'], 'text not found', f)
            assert t.count(old) == 1 or b.get('first'), (b['id'], 'text found %d times' % t.count(old))
            open(p, 'w', newline='').write(t.replace(old, new, 1))
        d = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE).stdout
        open(os.path.join(out, 'patch.diff'), 'wb').write(d)
        r1 = sh(['bash', os.path.join(out, 'demo.sh')], repo)
        print(b['id'], 'unchanged', r0.returncode, 'patched', r1.returncode, 'OK' if (r0.returncode == 0 and r1.returncode != 0) else 'BAD')
        if r0.returncode or not r1.returncode:
            print(r0.stdout[-1500:], '-----\n', r1.stdout[-1500:])
    finally:
        shutil.rmtree(tmp)


for b in BUGS:
    if len(sys.argv) < 2 or b['id'] in sys.argv[1:]:
        plant(b)
