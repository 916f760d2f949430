#!/usr/bin/env python3
"""dev.py KEY|MODULE... : verify single functions (development helper; same path as check.py). Options: -v full errors, -g generate only, -k keep file, spec: lemmas"""
import sys, os, glob, subprocess, time, multiprocessing as mp
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/cppvc'); sys.path.insert(0, H + '/contracts'); sys.dont_write_bytecode = True; sys.setrecursionlimit(8000)
import verify, importlib
from engine import Program
W = '/tmp/dev'; os.makedirs(W, exist_ok=True)
REPO = os.environ.get('CPPVC_REPO', '/repo')
ad = H + '/build/astdump'
if not os.path.exists(ad): subprocess.run(['bash', H + '/cppvc/build_astdump.sh', ad], check=True)
opts = [a for a in sys.argv[1:] if a.startswith('-')]; keys = [a for a in sys.argv[1:] if not a.startswith('-')]
asts, bad = verify.dump_asts(REPO + '/src', W, ad)
if bad: print('bad', bad)
P = Program(asts); C = verify.load_contracts()
todo = []; spec = False
for k in keys:
    if k == 'spec': spec = True
    elif os.path.exists(H + '/contracts/%s.py' % k): todo += [q for q, v in importlib.import_module(k).C.items() if not v.get('inline') and not v.get('trusted')]
    else: todo += [q for q in C if q == k or q.endswith('::' + k)]
def job(k): return verify.run_unit(P, C, k, W, vacuity='-n' not in opts)
def js(_): return verify.run_spec(P, W, '-t' in opts)
with mp.get_context('fork').Pool(7) as pool:
    sp = pool.apply_async(js, (0,)) if spec else None
    for r in pool.imap_unordered(job, todo):
        print('%-45s %s %d/%d obl, %d vcs, %.1fs solver %s %s' % (r['unit'], r['status'], r['discharged'], r['obligations'], r['vcs'], r['solver_s'], r.get('reachable', ''), r.get('reason', '')[:300]))
        for f in r['failed'][:12]: print('   FAIL line %s of %s: %s\n        %s' % (f['line'], f['function'], f['obligation'], f['term'][:300]))
        if '-v' in opts: print(r.get('stderr', ''))
    if sp:
        r = sp.get(); print('spec', r['status'], r.get('verified'), r.get('modules'), r.get('wall_s'), r.get('reason', '')[-2500:])
