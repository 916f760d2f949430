#!/usr/bin/env python3
"""mkseed.py SPEC.py : plant one bug (development tool). SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO (C++ main body file text), NEEDS, BREAKS.
Confirms in a scratch copy: patch applies, builds, stable tests pass, demo passes before and fails after; writes /verif/seeded/ID."""
import sys, os, subprocess, tempfile, shutil, json
ns = {}; exec(open(sys.argv[1]).read(), ns)
DEMO_SH = '''#!/bin/bash
# builds demo.cpp against the library just built in the current directory; exit 0: property held
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -r "$t"' EXIT
g++ -std=c++14 -g -w -I. -Isrc "$here/demo.cpp" -L_build -ldkim++ -Wl,-rpath,"$PWD/_build" -lssl -lcrypto -lsodium -lresolv -o "$t/demo"
cd "$t"
timeout 60 ./demo
'''
def sh(cmd, cwd, ok=True):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
    if ok and r.returncode: print(r.stdout[-3000:], r.stderr[-3000:]); raise SystemExit('FAILED: ' + cmd)
    return r
def one(s):
    out = '/verif/seeded/' + s['ID']; os.makedirs(out, exist_ok=True)
    for f, o, n in s['EDITS']:
        p = '/repo/' + f; t = open(p).read()
        if t.count(o) != 1: raise SystemExit('%s: edit does not match once (%d): %r' % (s['ID'], t.count(o), o))
    w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    sh('cp -a /repo/src /repo/tests /repo/tools /repo/.git /repo/.gitignore /repo/CMakeLists.txt /repo/*.cmake %s/' % w, '/')
    for n in ('build', 'test'):
        x = open('/opt/vp/%s.sh' % n).read().replace('/repo', w).replace('/opt/vp/build.sh', w + '/../' + os.path.basename(w) + '_build.sh')
        open(w + '_%s.sh' % n, 'w').write(x)
    try:
        for f, o, n in s['EDITS']:
            p = os.path.join(w, f); x = open(p).read(); open(p, 'w').write(x.replace(o, n))
        open(out + '/patch.diff', 'w').write(sh('git diff -- src', w).stdout)
        open(out + '/demo.cpp', 'w').write(s['DEMO']); open(out + '/demo.sh', 'w').write(s.get('SH', DEMO_SH))
        json.dump({'property': s['PROP'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        b = sh('bash %s_build.sh' % w, w, False)
        if b.returncode: print(s['ID'], 'does not build', b.stdout[-1500:]); return
        tt = sh('bash %s_test.sh %s_test.json' % (w, w), w, False)
        r = sh('bash %s/demo.sh' % out, w, False)
        base = json.load(open('/opt/vp/BASELINE.json')); res = json.load(open(w + '_test.json'))
        miss = set(base['stable']) - set(res['passed'])
        sh('git checkout -- .', w); sh('bash %s_build.sh' % w, w)
        q = sh('bash %s/demo.sh' % out, w, False)
        if q.returncode: print(s['ID'], 'demo fails on the unchanged tree', q.stdout[-800:], q.stderr[-1500:]); return
        print(s['ID'], 'tests lost:', sorted(miss) or 'none', '| demo with patch:', r.returncode, (r.stdout + r.stderr).strip()[-200:], '' if r.returncode and not miss else '   <<< BAD', flush=True)
    finally:
        shutil.rmtree(w)
        for n in ('_build.sh', '_test.sh', '_test.json'):
            if os.path.exists(w + n): os.unlink(w + n)
specs = [s for s in ns['SEEDS'] if not sys.argv[2:] or s['ID'] in sys.argv[2:]]
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(4) as ex:
    for _ in ex.map(one, specs): pass
