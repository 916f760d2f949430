import sys, os, glob, subprocess, tempfile, re, json, time, importlib
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, 'contracts'))
from engine import *
from execu import *
from unit import *

def structs(prog, x):
    out = []
    for n, r in prog.records.items():
        if any('exception' in b or 'runtime_error' in b for b in r['bases']): continue
        fs = []
        ok = True
        for f in r['fields']:
            try: mt = x.mtype(f['t'])
            except Unsupported: continue
            if mt in ('ptr', 'iter', 'lam', 'uptr', 'fun'): continue
            try: fs.append('pub %s: %s' % (f['n'], vtype(mt)))
            except Unsupported: ok = False
        if ok: out.append('pub struct %s { %s }' % (n.replace('::', '_'), ', '.join(fs)))
    return out

def lits():
    return ['pub open spec fn %s() -> Seq<u8> { seq![%s] }' % (n, ', '.join('%du8' % c for c in b)) for n, b in sorted(LITS.items())] + \
           ['pub open spec fn %s() -> Seq<int> { seq![%s] }' % (n, ', '.join('%dint' % c for c in b)) for n, b in sorted(ILITS.items())]
