#!/usr/bin/env python3
"""development: applies behaviour-preserving edits in scratch copies, confirms build and tests, runs the checks of the listed properties (they must stay quiet)"""
import sys, os, subprocess, json, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ns = {}; exec(open(sys.argv[1]).read(), ns); sel = sys.argv[2:]
def sh(c, cwd='/', ok=False): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
def one(s):
    w = tempfile.mkdtemp(prefix='ref_', dir='/tmp'); out = []
    try:
        sh('cp -a /repo/src /repo/tests /repo/tools /repo/.git /repo/.gitignore /repo/CMakeLists.txt /repo/*.cmake %s/' % w)
        for n in ('build', 'test'): open(w + '/%s.sh' % n, 'w').write(open('/opt/vp/%s.sh' % n).read().replace('/repo', w).replace('/opt/vp/build.sh', w + '/build.sh'))
        for f, o, n in s['EDITS']:
            p = os.path.join(w, f); x = open(p).read()
            if x.count(o) != 1: return s['ID'], ['EDIT DOES NOT MATCH %d: %r' % (x.count(o), o[:80])]
            open(p, 'w').write(x.replace(o, n))
        b = sh('bash %s/build.sh' % w, w)
        if b.returncode: return s['ID'], ['DOES NOT BUILD ' + b.stdout[-1200:]]
        sh('bash %s/test.sh %s/t.json' % (w, w), w)
        miss = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open(w + '/t.json'))['passed'])
        if miss: return s['ID'], ['TESTS LOST %s' % miss]
        os.mkdir(w + '/v'); sh('cp -a /verif/check.py /verif/cppvc /verif/contracts /verif/spec /verif/hunt /verif/known_findings.txt /verif/build %s/v/' % w)
        for p in s['PROPS']:
            r = subprocess.run(['python3', w + '/v/check.py', p], capture_output=True, text=True, env=dict(os.environ, CPPVC_REPO=w, CPPVC_HUNT_S='15'))
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            f = [l.strip()[:330] for l in r.stdout.split('\n') if 'failed obligation' in l or 'failing input' in l or 'undecided' in l]
            out.append('%s rc=%d %s | %s %s' % (p, r.returncode, 'QUIET' if not v else 'ALARM' + (' no-input' if 'no-failing' in v[0] else ' INPUT'), ' ; '.join(f[:3]), r.stderr[-300:] if r.returncode not in (0, 1) else ''))
    finally: shutil.rmtree(w)
    return s['ID'], out
with ThreadPoolExecutor(2) as ex:
    for i, o in ex.map(one, [s for s in ns['REFS'] if not sel or s['ID'] in sel]):
        for l in o: print(i, l, flush=True)
