#!/usr/bin/env python3
"""check.py PROPERTY : decides one property on the current tree of /repo. Exit 0: held. Exit 1: VIOLATION line."""
import os, sys, json, time, shutil, subprocess, tempfile, glob, re, resource
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'cppvc')); sys.path.insert(0, os.path.join(HERE, 'contracts'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(8000)
import verify, props
from engine import Program, Unsupported
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
import multiprocessing as mp

REPO = os.environ.get('CPPVC_REPO', '/repo'); SRC = REPO + '/src'
PROG = None; CONTR = None; WORK = None; ONLY = None

def job(key):
    return verify.run_unit(PROG, CONTR, key, WORK, only=ONLY)
def job_spec(theorems): return verify.run_spec(PROG, WORK, theorems)
def job_deps(key):
    return key

def build_astdump(work):
    for p in (os.path.join(HERE, 'build', 'astdump'),):
        if os.path.exists(p) and os.access(p, os.X_OK): return p
    p = os.path.join(work, 'astdump')
    subprocess.run(['bash', os.path.join(HERE, 'cppvc', 'build_astdump.sh'), p], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return p

def build_hunt(work):
    """compile the library and the hunter; test files that no longer fit the library's interfaces are left out and reported"""
    out = os.path.join(work, 'hunt'); os.makedirs(out)
    hd = os.path.join(HERE, 'hunt')
    F = '-O1 -g0 -w -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -DHAS_RES_NINIT'.split() + ['-I' + REPO, '-I' + SRC, '-I' + hd]
    jobs = [(f, os.path.join(out, 'lib_' + os.path.basename(f) + '.o'), 'c++11') for f in sorted(glob.glob(SRC + '/*.cpp'))] + \
           [(f, os.path.join(out, 'h_' + os.path.basename(f) + '.o'), 'c++14') for f in sorted(glob.glob(hd + '/*.cpp'))]
    def one(j):
        r = subprocess.run(['g++', '-std=' + j[2]] + F + ['-c', j[0], '-o', j[1]], capture_output=True, text=True)
        return j, r.returncode, r.stderr
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, jobs))
    skipped = [os.path.basename(j[0]) for j, rc, e in rs if rc != 0]
    if any(j[2] == 'c++11' and rc != 0 for j, rc, e in rs): return None, skipped, 'library does not compile'
    objs = [j[1] for j, rc, e in rs if rc == 0]
    exe = os.path.join(out, 'hunt')
    def link(o): return subprocess.run(['g++', '-fsanitize=address,undefined'] + o + ['-o', exe, '-lssl', '-lcrypto', '-lsodium', '-lresolv'], capture_output=True, text=True)
    r = link(objs)
    if r.returncode != 0:      # drop the test files whose symbols are missing
        keep = [o for o in objs if '/lib_' in o or o.endswith('/h_main.cpp.o') or o.endswith('/h_support.cpp.o')]
        for o in objs:
            if o in keep: continue
            if link(keep + [o]).returncode == 0: keep.append(o)
            else: skipped.append(os.path.basename(o)[2:-2])
        r = link(keep)
    if r.returncode != 0: return None, skipped, r.stderr[-500:]
    return exe, skipped, ''

def build_threads(work):
    """C25: the library and a multi-threaded driver under the thread sanitizer"""
    out = os.path.join(work, 'threads'); os.makedirs(out)
    r = subprocess.run(['bash', os.path.join(HERE, 'hunt', 'threads', 'build.sh'), SRC, out], capture_output=True, text=True)
    return (os.path.join(out, 'threads') if r.returncode == 0 else None), [], r.stderr[-500:]

def hunt(exe, pid, seed, secs, out):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=0', TZ='UTC', TSAN_OPTIONS='halt_on_error=1:exitcode=66', UBSAN_OPTIONS='print_stacktrace=0')
    r = subprocess.run([exe, '--prop', pid, '--seed', str(seed), '--seconds', str(secs), '--out', out], capture_output=True, text=True, env=env, cwd=os.path.dirname(out))
    st = {}
    m = re.search(r'^STATS (.*)$', r.stdout, re.M)
    if m: st = {k: int(v) for k, v in (p.split('=') for p in m.group(1).split())}
    f = re.search(r'^FAIL (.*)$', r.stdout, re.M)
    return r.returncode, st, f.group(1) if f else None

def main():
    global PROG, CONTR, WORK
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rdir = os.path.join(HERE, 'replays'); os.makedirs(rdir, exist_ok=True)
    WORK = tempfile.mkdtemp(prefix='cppvc_%s_' % pid)
    code = 3
    try: code = run(pid, tier, seed, t0, rdir)
    finally: shutil.rmtree(WORK, ignore_errors=True)
    sys.exit(code)

def run(pid, tier, seed, t0, rdir):
    global PROG, CONTR, ONLY
    ONLY = props.ONLY.get(pid)
    CONTR = verify.load_contracts()
    with ThreadPoolExecutor(2) as ex:
        fh = ex.submit(build_threads if pid == 'C25' else build_hunt, WORK)
        astdump = build_astdump(WORK)
        asts, bad = verify.dump_asts(SRC, WORK, astdump)
        PROG = Program(asts)
        # units: the property's own, then the contracts they rely on
        own = [u for u in props.UNITS.get(pid, [])]
        ctx = mp.get_context('fork')
        results = {}; todo = list(own)
        specres = None
        with ctx.Pool(7) as pool:
            fs = pool.apply_async(job_spec, (pid in props.THEOREMS,))
            pend = {k: pool.apply_async(job, (k,)) for k in todo}
            while pend:
                for k in list(pend):
                    if pend[k].ready():
                        r = pend.pop(k).get(); results[k] = r
                        for d in r['deps']:
                            if d not in results and d not in pend and not CONTR[d].get('trusted'): pend[d] = pool.apply_async(job, (d,))
                time.sleep(0.02)
            specres = fs.get()
        exe, skipped, herr = fh.result()
    if bad:
        print('note: sources that do not parse: %s' % bad)
    own_r = [results[k] for k in own]; dep_r = [r for k, r in results.items() if k not in own]
    for r in own_r:      # clauses that belong to other properties
        r['foreign'] = [o for o in r['failed'] if not props.owns(pid, r['unit'], o['obligation'])]
    failed = [r for r in own_r if r['status'] == 'failed' and len(r['foreign']) < len(r['failed'])]
    undecided = [r for r in own_r if r['status'] not in ('proved', 'failed')]
    depbad = [r for r in dep_r if r['status'] != 'proved']
    allproved = not failed and not undecided and not depbad and specres['status'] == 'proved' and own_r
    # bounded search for a failing input on the real code: replays counterexamples, and stands in where the proof does not reach
    secs = (props.HUNT.get(pid, 8) if hasattr(props, 'HUNT') else 8)
    if not allproved: secs = secs * 3 + 10
    if tier == 'thorough': secs = max(secs, 40) * 4
    secs = float(os.environ.get('CPPVC_HUNT_S', secs))
    rp = os.path.join(rdir, pid + '.txt')
    if os.path.exists(rp): os.unlink(rp)
    hrc, hst, hfail = (None, {}, None)
    if exe:
        hrc, hst, hfail = hunt(exe, pid, seed, secs, rp)
        if hrc not in (0, 1): hfail = None
    line = None; code = 0
    if hfail:
        line = 'VIOLATION property=%s replay=%s' % (pid, rp); code = 1
        with open(rp, 'a') as f:
            f.write('# replay: build with /verif/hunt/%sbuild.sh /repo/src DIR, then DIR/%s --replay %s\n' % (('threads/', 'threads', rp) if pid == 'C25' else ('', 'hunt', rp)))
            for r in failed:
                for o in r['failed'][:10]: f.write('# failed obligation: %s (line %s of %s, unit %s)\n' % (o['obligation'], o['line'], o['function'], r['unit']))
    elif failed:
        with open(rp, 'w') as f:
            f.write('property %s\nno failing input found within %.0f s of search\n' % (pid, secs))
            for r in failed:
                f.write('unit %s: %d of %d obligations discharged\n' % (r['unit'], r['discharged'], r['obligations']))
                for o in r['failed']:
                    if o not in r['foreign']: f.write('FAILED OBLIGATION: %s\n  at line %s of %s\n  %s\n' % (o['obligation'], o['line'], o['function'], o['term']))
                f.write('verifier output:\n%s\n' % r.get('stderr', ''))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp); code = 1
    level = 'proof'
    trusted_fns = sorted({d for r in results.values() for d in r['deps'] if CONTR.get(d, {}).get('trusted')})
    ob = sum(r['obligations'] for r in results.values()); di = sum(r['discharged'] for r in results.values())
    cov = {
        'obligations': ob, 'discharged': di,
        'checker_cmd': 'python3 /verif/check.py %s  (clang AST of /repo/src -> cppvc -> verus UNIT.rs --verify-root --rlimit 30; back end Z3)' % pid,
        'trusted_base': props.BASE + ['assumed contract: %s (%s)' % (d, CONTR[d].get('trusted')) for d in trusted_fns],
        'functions_under_contract': {r['unit']: {'status': r['status'], 'obligations': r['obligations'], 'discharged': r['discharged'], 'vcs': r['vcs'], 'inlined_helpers': r['inlined'],
                                                 'reachability_check': r.get('reachable', {}), 'solver_s': round(r['solver_s'], 3), 'reason': r.get('reason', ''), 'owned_by_property': r['unit'] in own} for r in results.values()},
        'lemmas_of_specification_library': {'status': specres['status'], 'verified': specres.get('verified', 0), 'modules': specres.get('modules', {}), 'solver_s': specres.get('solver_s', 0)},
        'solver_s': round(sum(r['solver_s'] for r in results.values()) + specres.get('solver_s', 0), 3),
        'failed_obligations': [dict(unit=r['unit'], **{k: v for k, v in o.items() if k != 'term'}) for r in own_r + dep_r for o in r['failed']],
        'bounded_parts': props.BOUNDED.get(pid, []) + ['%s: not decided by the verifier (%s); bounded search stands in' % (r['unit'], r.get('reason', r['status'])) for r in undecided + [d for d in depbad]],
        'evaluations': hst.get('evaluations', 0), 'distinct_nontrivial': hst.get('distinct', 0),
        'rule': 'bounded stand-in and counterexample replay: the real library (address/undefined sanitizers) against an executable reading of the property; cases enumerated over small alphabets in order of length, then random; distinct counted by hash of the input (each worker up to 200000)',
        'bounded_search': dict(hst, seconds=secs, test_files_left_out=skipped),
        'std_operations_modelled': sorted({s for r in results.values() for s in r['std']}),
        'samples': ['%s: %s' % (r['unit'], r['status']) for r in results.values()][:20],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': props.ASSUME.get(pid, []), 'wall_s': round(time.time() - t0, 1), 'violations': 1 if code else 0}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged over %d functions (%s); search: %d cases in %.0f s%s' % (pid, di, ob, len(results),
        ', '.join('%s %s' % (s, n) for s, n in sorted({s: sum(1 for r in results.values() if r['status'] == s) for s in {r['status'] for r in results.values()}}.items())), hst.get('evaluations', 0), secs, '' if exe else ' (hunter not built: %s)' % herr))
    for r in undecided + depbad: print('  undecided: %s: %s %s' % (r['unit'], r['status'], r.get('reason', '')))
    for r in own_r + dep_r:
        for o in r['failed'][:6]: print('  failed obligation: %s, line %s of %s' % (o['obligation'], o['line'], o['function']))
    if specres['status'] != 'proved': print('  specification lemmas: %s' % specres.get('reason', '')[-600:])
    if hfail: print('  failing input: %s' % hfail[:1500])
    for k in known(pid): print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if line: print(line)
    if not exe and not own_r: return 2
    return code

def known(pid):
    p = os.path.join(HERE, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) (.*)', l)
            if m and m.group(1) == pid: out.append(m.group(2))
    return out
if __name__ == '__main__': main()
