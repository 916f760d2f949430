"""Generates and discharges the verification conditions of a set of functions; one Verus run per function."""
import os, sys, re, json, time, glob, subprocess, importlib, traceback, shutil
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
from run import *
from engine import *
import engine
from unit import Unit
import contextlib

def load_contracts():
    C = {}; owner = {}
    for f in sorted(glob.glob(os.path.join(VERIF, 'contracts', '*.py'))):
        m = importlib.import_module(os.path.basename(f)[:-3])
        for k, v in getattr(m, 'C', {}).items():
            if k in C: raise Exception('duplicate contract ' + k)
            C[k] = v
    return C

def spec_text():
    """the vocabulary of the contracts and its lemmas"""
    out = []
    files = [os.path.join(VERIF, 'spec', 'std.rs')] + sorted(p for p in glob.glob(os.path.join(VERIF, 'spec', '*.rs')) if not p.endswith('/std.rs'))
    for p in files: out += open(p).read().split('\n')
    return out

def theorem_files():
    """theorems that join the contracts of several functions; needed by no single function"""
    return sorted(glob.glob(os.path.join(VERIF, 'spec', 'theorems', '*.rs')))

def theorem_mods():
    out = []; names = []
    for f in theorem_files():
        n = os.path.basename(f)[:-3]
        out += ['mod %s { use vstd::prelude::*; use crate::spec::*; %s verus!{' % (n, ' '.join('use crate::%s::*;' % m for m in names))] + open(f).read().split('\n') + ['}}']
        names.append(n)
    return out, names

FORBID = re.compile(r'\b(assume|admit)\s*\(|external_body|assume_specification|verifier::external|\baxiom\b|exec_allows_no_decreases')

def dump_asts(src, work, astdump):
    """type-checked AST of every library source, from the current tree"""
    def one(f):
        r = subprocess.run([astdump, src, f, '-std=c++11', '-DHAS_RES_NINIT', '-I' + os.path.dirname(src)], capture_output=True, text=True)
        return os.path.basename(f)[:-4] + '.json', r.returncode, r.stdout
    files = sorted(glob.glob(src + '/*.cpp'))
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, files))
    bad = [n for n, rc, o in rs if rc != 0 or not o.strip()]
    return [(n, o) for n, rc, o in rs if rc == 0 and o.strip()], bad

def file_text(prog, x, body, theorems=False):
    pre = ['#![allow(warnings)]', 'use vstd::prelude::*;', 'mod spec { use vstd::prelude::*; verus!{'] + structs(prog, x) + spec_text() + lits() + ['}}'] + (theorem_mods()[0] if theorems else []) + ['use spec::*;', 'verus!{']
    return pre + body + ['} fn main(){}'], len(pre)

def verus(path, mode, rlimit=30, timeout=280, extra=()):
    t = time.time()
    try:
        r = subprocess.run(['verus', path] + mode + ['--multiple-errors', '40', '--num-threads', '2', '--rlimit', str(rlimit), '--output-json', '--time'] + list(extra),
                           capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: return None, '', time.time() - t
    j = None
    try: j = json.loads(r.stdout)
    except Exception:
        i = r.stdout.find('{')
        try: j = json.loads(r.stdout[i:])
        except Exception: pass
    return j, r.stderr, time.time() - t

def diagnostics(err):
    """[(message, line)] of the errors in verus output"""
    out = []
    for m in re.finditer(r'^error(?:\[\w+\])?: ([^\n]*)\n\s+--> [^:\n]*:(\d+):', err, re.M): out.append((m.group(1), int(m.group(2))))
    return out

def alignments(n, m):
    """ways to give the m loop annotations of a contract, in order, to the n loops a changed function has"""
    import itertools
    if n < m: return list(itertools.combinations(range(m), n))
    return [tuple(sel.index(i) if i in sel else None for i in range(n)) for sel in itertools.combinations(range(n), m)]
def run_unit(prog, C, key, work, vacuity=True, rlimit=30, only=None):
    if only: return run_unit1(prog, C, key, work, False, rlimit, only=only)
    r = run_unit1(prog, C, key, work, vacuity, rlimit)
    n, m = r.get('nloops', (0, 0))
    if n == m or r['status'] == 'proved': return r
    # the function's loops no longer correspond to the annotations one to one: try the ways they may
    for al in sorted(alignments(n, m), key=lambda a: sum(i is None for i in a))[:6]:
        a = run_unit1(prog, C, key, work, vacuity, rlimit, align=al)
        if a['status'] == 'proved': a['loops_realigned'] = list(al); return a
    if r['status'] == 'failed':      # the invariants are not those of these loops: a failed step says nothing about the property
        r['status'] = 'unreached'; r['reason'] = 'loops of the function (%d) do not correspond to the annotated ones (%d): %s' % (n, m, r['failed'][0]['obligation'] if r['failed'] else ''); r['failed'] = []; r['discharged'] = 0
    return r
def run_unit1(prog, C, key, work, vacuity=True, rlimit=30, dropped=frozenset(), rounds=2, align=None, only=None):
    """verify one function against its contract"""
    t0 = time.time(); res = {'unit': key, 'status': None, 'obligations': 0, 'discharged': 0, 'failed': [], 'deps': [], 'inlined': [], 'std': [], 'solver_s': 0.0, 'vcs': 0}
    engine.LITS.clear(); engine.ILITS.clear()
    try:
        u = Unit(prog, C, key); u.dropped = dropped; u.align = align; u.only = only
        out, info = u.generate()
        ctx = u.ctx
    except Unsupported as e:
        try: res['nloops'] = u.nloops
        except UnboundLocalError: pass
        res['status'] = 'unreached'; res['reason'] = str(e); return res
    except RecursionError:
        res['status'] = 'unreached'; res['reason'] = 'recursion limit'; return res
    except Exception as e:
        res['status'] = 'unreached'; res['reason'] = 'extraction error: %r at %s' % (e, traceback.format_exc().strip().split('\n')[-3].strip()); return res
    res['nloops'] = u.nloops
    res['deps'] = sorted({f for f in ctx.used_contracts}); res['inlined'] = sorted(ctx.inlined - {'<lambda>'}); res['std'] = sorted(ctx.std_used)
    res['obligations'] = len(info); res['vcs'] = u.nfns; res['gen_s'] = round(time.time() - t0, 2)
    if not info: res['status'] = 'unreached'; res['reason'] = 'no obligations generated'; return res
    for l in out:
        if FORBID.search(l): res['status'] = 'unreached'; res['reason'] = 'forbidden construct in generated text'; return res
    name = re.sub(r'\W+', '_', key); path = os.path.join(work, name + '.rs')
    # many VCs: several files, decided at the same time
    starts = [i for i, l in enumerate(out) if l.startswith('proof fn vc_')] + [len(out)]
    k = max(1, min(4, (len(starts) - 1) // 12)); owner = {o: i for i, o in enumerate(starts[:-1])}
    parts = []
    byline = dict(info)
    for sh in range(k):
        po = []; pi = {}; ph = {}
        for v in range(sh, len(starts) - 1, k):
            for i in range(starts[v], starts[v + 1]):
                po.append(out[i])
                if i + 1 in byline: pi[len(po)] = byline[i + 1]
                if i + 1 in u.hints: ph[len(po)] = u.hints[i + 1]
        try: txt, base = file_text(prog, u.x, po)
        except Unsupported as e: res['status'] = 'unreached'; res['reason'] = str(e); return res
        pth = path if k == 1 else path[:-3] + '_%d.rs' % sh
        open(pth, 'w').write('\n'.join(txt))
        parts.append((pth, txt, base, pi, ph, len(range(sh, len(starts) - 1, k))))
    res['file'] = parts[0][0]
    with ThreadPoolExecutor(k) as ex: runs = list(ex.map(lambda q: verus(q[0], ['--verify-root'], rlimit), parts))
    for i, (j, err, secs) in enumerate(runs):      # a proof that was nearly there: once more, with a larger budget
        if j is not None and 'esource limit' in err: runs[i] = verus(parts[i][0], ['--verify-root'], 3 * rlimit)
    fails = []; rl = False; stale = set(); okall = True; res['verified_fns'] = 0; errs = []
    for (pth, txt, base, pi, ph, nf), (j, err, secs) in zip(parts, runs):
        if j is None or 'verification-results' not in j or j['verification-results'].get('encountered-vir-error') or (re.search(r'^error\[E\d+\]', err, re.M)):
            if j is None and not err: rl = True; okall = False; continue
            res['status'] = 'unreached'; res['reason'] = 'verifier rejects the text: ' + ' | '.join('%s (line %d)' % d for d in diagnostics(err)[:3]); res['stderr'] = err[-3000:]; return res
        try: res['solver_s'] += j['times-ms']['smt']['total'] / 1000.0
        except Exception: pass
        vr = j['verification-results']; res['verified_fns'] += vr.get('verified', 0); errs.append(err)
        if vr.get('errors', 1) != 0 or vr.get('verified', -1) < nf: okall = False
        for msg, ln in diagnostics(err):
            if 'esource limit' in msg or 'rlimit' in msg: rl = True; continue
            if 'aborting' in msg: continue
            o = pi.get(ln - base)
            t = txt[ln - 1].strip() if 0 < ln <= len(txt) else ''
            if o is not None: fails.append({'function': o.fn, 'line': o.line, 'obligation': o.desc, 'term': t[:2000]})
            else:
                fails.append({'function': key, 'line': 0, 'obligation': 'proof step: ' + msg, 'term': t[:2000]})
                if ln - base in ph: stale.add(ph[ln - base])
    err = '\n'.join(errs)
    if stale and rounds and vacuity:      # proof steps that no longer hold are hints, not claims: decide again without them
        r = run_unit1(prog, C, key, work, vacuity, rlimit, dropped | stale, rounds - 1, align)
        r['dropped_steps'] = sorted(a for a, _ in dropped | stale); return r
    if okall and not fails and not rl and res['verified_fns'] >= u.nfns:
        res['status'] = 'proved'; res['discharged'] = len(info)
    elif fails and all(f['obligation'].startswith('proof step') for f in fails): res['status'] = 'timeout'; res['reason'] = 'a proof step fails, no obligation does'
    elif rl and not fails: res['status'] = 'timeout'; res['reason'] = 'solver resource limit'
    else:
        res['status'] = 'failed'; res['failed'] = fails; res['discharged'] = max(0, len(info) - len([f for f in fails if f['line']])); res['stderr'] = err[-6000:]
    if res['status'] == 'proved' and vacuity:
        vo, names = u.emit_vacuity(ctx)
        if names:
            vt, vb = file_text(prog, u.x, vo)
            vp = os.path.join(work, name + '_vac.rs'); open(vp, 'w').write('\n'.join(vt))
            j2, err2, s2 = verus(vp, ['--verify-root'], 3, timeout=120)
            bad = {ln for _, ln in diagnostics(err2)} | {int(x) for x in re.findall(r'--> [^:\n]*:(\d+):', err2)}
            reach = {}
            for nm, why, ln in names:
                start = vb + ln
                reach.setdefault(why, []).append(start in bad or any(b in bad for b in (start,)))
            rl2 = 'esource limit' in err2 or j2 is None
            res['reachable'] = {w: '%d of %d' % (sum(v), len(v)) for w, v in reach.items()}
            if not rl2 and any(not any(v) for v in reach.values()):
                res['status'] = 'unreached'; res['reason'] = 'vacuous: %s exits unreachable under the hypotheses' % [w for w, v in reach.items() if not any(v)]; res['discharged'] = 0
    res['wall_s'] = round(time.time() - t0, 2)
    return res

def run_spec(prog, work, theorems=False):
    """the lemmas of the specification library and, on request, the theorems that join contracts"""
    from lib import ExecX as ExecS
    from execu import Ctx
    x = ExecS(Ctx(prog, {}))
    txt, base = file_text(prog, x, [], theorems)
    m = FORBID.search('\n'.join(spec_text() + theorem_mods()[0]))
    if m: return {'status': 'failed', 'reason': 'forbidden construct %s' % m.group(0)}
    path = os.path.join(work, 'spec_lemmas.rs'); open(path, 'w').write('\n'.join(txt))
    mods = ['spec'] + (theorem_mods()[1] if theorems else [])
    with ThreadPoolExecutor(4) as ex: runs = list(ex.map(lambda q: verus(path, ['--verify-only-module', q], 60), mods))
    r = {'status': 'proved', 'verified': 0, 'reason': '', 'wall_s': round(max(s for _, _, s in runs), 2), 'solver_s': 0, 'modules': {}}
    for q, (j, err, secs) in zip(mods, runs):
        if j is None or 'verification-results' not in j: r.update(status='failed', reason=err[-1500:]); continue
        vr = j['verification-results']; r['verified'] += vr.get('verified', 0); r['modules'][q] = vr.get('verified', 0)
        if vr.get('errors') != 0 or vr.get('verified', 0) == 0: r.update(status='failed', reason=err[-1500:])
        try: r['solver_s'] = round(r['solver_s'] + j['times-ms']['smt']['total'] / 1000.0, 3)
        except Exception: pass
    return r

def closure(C, roots, prog, deps_of):
    out = []; todo = list(roots)
    while todo:
        k = todo.pop(0)
        if k in out: continue
        out.append(k); todo += deps_of(k)
    return out
