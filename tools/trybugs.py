#!/usr/bin/env python3
"""development: runs the check of each seeded bug's property (and --all checks) on a scratch copy with the patch applied"""
import sys, os, subprocess, json, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
def one(i):
    d = '/verif/seeded/' + i; p = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='try_', dir='/tmp'); shutil.rmtree(w); os.mkdir(w)
    subprocess.run('cp -a /repo/src /repo/tests /repo/.git %s/ && git -C %s checkout -q -- . ; git -C %s apply %s/patch.diff' % (w, w, w, d), shell=True, check=True)
    os.mkdir(w + '/v'); subprocess.run('cp -a /verif/check.py /verif/cppvc /verif/contracts /verif/spec /verif/hunt /verif/known_findings.txt /verif/build %s/v/ 2>/dev/null' % w, shell=True)
    r = subprocess.run(['python3', w + '/v/check.py', p], capture_output=True, text=True, env=dict(os.environ, CPPVC_REPO=w))
    shutil.rmtree(w)
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    f = [l for l in r.stdout.split('\n') if 'failed obligation' in l or 'failing input' in l or 'undecided' in l]
    return i, p, r.returncode, v, f, r.stderr[-300:]
with ThreadPoolExecutor(2) as ex:
    for i, p, rc, v, f, e in ex.map(one, ids):
        print(i, p, rc, (v or ['-'])[0][:20] + ('no-input' if v and 'no-failing' in v[0] else ''), '|', *[x.strip()[:230] for x in f[:4]], e if rc not in (0, 1) else '')
