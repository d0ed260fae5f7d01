#!/usr/bin/env python3
"""For each planted bug: scratch copy of /repo with the patch, stable tests, demonstration, and the check of its property.
usage: try_bugs.py [-a] [id ...]    (-a: all checks instead of the one of its property)"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = '-a' in args
ids = [a for a in args if a != '-a'] or sorted(os.listdir(ROOT + '/seeded'))


def one(i):
    meta = json.load(open('%s/seeded/%s/meta.json' % (ROOT, i)))
    tmp = tempfile.mkdtemp(prefix='tryb')
    try:
        repo = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        subprocess.run(['git', 'apply', '%s/seeded/%s/patch.diff' % (ROOT, i)], cwd=repo, check=True)
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors', 'tests'], cwd=repo,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res = [t.stdout.strip().split('\n')[-1]]
        props = sorted(f[:-3] for f in os.listdir(ROOT + '/checks') if f.endswith('.py')) if every else [meta['property']]
        for d in ('checks', 'lib', 'check', 'known_findings.txt'):
            subprocess.run(['cp', '-a', '%s/%s' % (ROOT, d), tmp], check=True)
        for p in props:
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick')
            c = subprocess.run([tmp + '/check', p, '--tier', 'quick'], cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION property=' + p)]
            if c.returncode or p == meta['property']:
                what = [l for l in c.stdout.split('\n') if 'violat' in l.lower() or 'key' in l.lower()]
                res.append('%s rc=%d %s' % (p, c.returncode, 'CAUGHT' if v and c.returncode == 1 else 'MISSED'))
        return i, res
    finally:
        shutil.rmtree(tmp)


with ThreadPoolExecutor(1 if every else 2) as ex:
    for i, res in ex.map(one, ids):
        print(i, '|', ' | '.join(res), flush=True)
