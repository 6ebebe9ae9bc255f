#!/usr/bin/env python3
"""seedrun.py [ids]: applies each seeded change to a scratch copy of the repository, runs its property's quick check
against it and records the outcome in tools/catch.json. (No check reads this.)"""
import json, os, subprocess, sys, time, shutil, tempfile
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cf = os.path.join(root, 'tools/catch.json')
ids = sys.argv[1:] or sorted(os.listdir(root + '/seeded'))
for i in ids:
    d = '%s/seeded/%s' % (root, i)
    p = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='seedrun')
    subprocess.run(['cp', '-a', '/repo', t + '/r'], check=True)
    subprocess.run(['git', '-C', t + '/r', 'apply', d + '/patch.diff'], check=True)
    s = time.time()
    r = subprocess.run([root + '/check.sh', p, 'quick'], env=dict(os.environ, VERIF_REPO=t + '/r', VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    e = int(time.time() - s)
    shutil.rmtree(t)
    by = ''
    ls = r.stdout.splitlines()
    hs = [ls[k + 1].split(':')[0].strip() for k, l in enumerate(ls[:-1]) if l.startswith('VIOLATION')]
    by = ', '.join('`%s`' % h for h in dict.fromkeys(hs))
    c = json.load(open(cf)) if os.path.exists(cf) else {}
    c[i] = {'rc': r.returncode, 'seconds': e, 'by': by}
    json.dump(c, open(cf, 'w'), indent=1, sort_keys=True)
    print(i, p, r.returncode, e, by, flush=True)
