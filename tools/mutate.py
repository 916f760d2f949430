#!/usr/bin/env python3
"""mutate.py OUT [FILE...]: development: small syntactic changes of the library, each decided by the functions under contract it touches.
A change the verifier accepts is listed: it must be one that changes no behaviour a property speaks of."""
import sys, os, re, json, glob, subprocess, tempfile, shutil, random, multiprocessing as mp
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/cppvc'); sys.path.insert(0, H + '/contracts'); sys.dont_write_bytecode = True; sys.setrecursionlimit(8000)
import verify, props
from engine import Program
AD = H + '/build/astdump'
OUT = sys.argv[1]; FILES = sys.argv[2:]
W = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
BASE, _ = verify.dump_asts('/repo/src', W, AD)
P0 = Program(BASE); C = verify.load_contracts()
inl = {}      # helper -> units it is inlined into
for f in glob.glob(H + '/evidence/*.json'):
    for k, v in json.load(open(f))['coverage'].get('functions_under_contract', {}).items():
        for h in v['inlined_helpers']: inl.setdefault(h, set()).add(k)
REL = {'==': ['!='], '!=': ['=='], '<=': ['<'], '>=': ['>'], '<': ['<='], '>': ['>='], '&&': ['||'], '||': ['&&']}
def muts(line):
    """[(new line, what)]"""
    out = []
    code = line
    c = re.search(r'(?<!:)//', line)
    end = c.start() if c else len(line)
    strs = [(m.start(), m.end()) for m in re.finditer(r'"(?:\\.|[^"\\])*"', line)]
    instr = lambda i: any(a <= i < b for a, b in strs)
    for m in re.finditer(r'==|!=|<=|>=|&&|\|\||(?<![<>-])[<>](?![<>=])', line):
        if m.start() >= end or instr(m.start()) or '#include' in line or 'template' in line: continue
        if m.group() in '<>' and re.search(r'(list|map|set|vector|shared_ptr|unique_ptr|function|static_cast|reinterpret_cast|const_cast|pair)\s*<', line): continue
        for r in REL[m.group()]: out.append((line[:m.start()] + r + line[m.end():], '%s to %s' % (m.group(), r)))
    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', line):
        if m.start() >= end or instr(m.start()): continue
        for d in (1, -1):
            n = int(m.group(1)) + d
            if n >= 0: out.append((line[:m.start()] + str(n) + line[m.end():], '%s to %d' % (m.group(1), n)))
    for a, b in (('true', 'false'), ('false', 'true')):
        for m in re.finditer(r'\b%s\b' % a, line):
            if m.start() < end and not instr(m.start()): out.append((line[:m.start()] + b + line[m.end():], '%s to %s' % (a, b)))
    for m in re.finditer(r'!(?=[\w(*])', line):
        if m.start() < end and not instr(m.start()): out.append((line[:m.start()] + line[m.end():], 'drop !'))
    for m in re.finditer(r' ([+-]) (?=[\w(])', line):
        if m.start() < end and not instr(m.start()): out.append((line[:m.start()] + ' %s ' % ('-' if m.group(1) == '+' else '+') + line[m.end():], 'flip sign'))
    for m in re.finditer(r'\+=', line):
        if m.start() < end and not instr(m.start()): out.append((line[:m.start()] + '=' + line[m.end():], '+= to ='))
    for a, b in strs:
        if b - a > 2 and a < end and '#include' not in line: out.append((line[:b - 2] + ('Z' if line[b - 2] != 'Z' else 'Y') + line[b - 1:], 'string literal'))
    for m in re.finditer(r"'(?:\\.|[^'\\])'", line):
        if m.start() < end and not instr(m.start()): out.append((line[:m.start()] + "'~'" + line[m.end():], 'character literal'))
    s = line.strip()
    if s.endswith(';') and not re.match(r'(return|break|using|typedef|#|throw|case|default|static|const |unsigned |int |size_t |bool |std::[\w:<> ,*&]+ \w+( =|;|\()|auto |char )', s) and '(' in s or re.match(r'[\w.\->*\[\]]+ ?[+-]?= ?[^=].*;$', s) or re.match(r'(\+\+|--)?\w+(\+\+|--)?;$', s): out.append((line[:len(line) - len(line.lstrip())] + ';' + '\n', 'drop statement'))
    if s in ('break;', 'continue;'): out.append((line.replace(s, ';'), 'drop ' + s))
    if re.match(r'return [^;]*;$', s) and s not in ('return true;', 'return false;', 'return *this;'): pass
    for a, b in (('unsigned char', 'signed char'), ('unsigned char', 'char'), ('size_t', 'int'), ('unsigned long', 'unsigned int'), ('rbegin', 'begin'), ('push_front', 'push_back'), ('push_back', 'push_front'), ('front()', 'back()'), ('back()', 'front()'), ('find_first_not_of', 'find_first_of'), ('find(', 'rfind('), ('tolower', 'toupper'), ('.find_last_of', '.find_first_of'), ('uint16_t', 'uint8_t')):
        for m in re.finditer(r'(?<!\w)' + re.escape(a), line):
            if m.start() < end and not instr(m.start()): out.append((line[:m.start()] + b + line[m.end():], '%s to %s' % (a, b)))
    return out
def units_at(path, ln):
    us = set()
    for k, f in P0.funcs.items():
        if f.get('file') != path or f.get('body') is None or not (f['l'] <= ln <= f['el']): continue
        if k in C: us.add(k)
        elif f['f'] in C: us.add(f['f'])
        us |= {u for u in inl.get(f['f'], ()) }
    return us
def job(j):
    path, ln, new, what, us = j
    w = tempfile.mkdtemp(prefix='m_', dir=W)
    try:
        shutil.copytree('/repo/src', w + '/src')
        p = w + '/src/' + os.path.basename(path); L = open(p).read().split('\n'); old = L[ln - 1]; L[ln - 1] = new.rstrip('\n'); open(p, 'w').write('\n'.join(L))
        if path.endswith('.cpp'):
            r = subprocess.run([AD, w + '/src', p, '-std=c++11', '-DHAS_RES_NINIT', '-I' + w], capture_output=True, text=True)
            if r.returncode or not r.stdout.strip(): return j, old, 'nocompile', {}, None
            nm = os.path.basename(p)[:-4] + '.json'; asts = [(n, o) for n, o in BASE if n != nm] + [(nm, r.stdout)]; asts.sort()
        else:
            asts, bad = verify.dump_asts(w + '/src', w, AD)
            if bad: return j, old, 'nocompile', {}, None
        P = Program(asts); res = {}
        for u in sorted(us):
            r = verify.run_unit(P, C, u, w, vacuity=False)
            res[u] = r['status'] + ((' ' + r.get('reason', '')[:120]) if r['status'] in ('unreached', 'timeout') else '')
            if r['status'] == 'failed': return j, old, 'killed', res, None
        st = 'accepted' if all(v == 'proved' for v in res.values()) else 'undecided'
        # the bounded search on what is left
        h = None
        if os.environ.get('HUNT', '1') == '1':
            b = subprocess.run(['bash', H + '/hunt/build.sh', w + '/src', w + '/hb'], capture_output=True, text=True)
            if b.returncode == 0:
                ps = sorted({p for p, q in props.UNITS.items() if p not in ('C25',) and any(u in q for u in us)})
                h = []
                for q in ps:
                    x = subprocess.run([w + '/hb/hunt', '--prop', q, '--seconds', '4', '--out', w + '/o'], capture_output=True, text=True, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0', TZ='UTC'))
                    if x.returncode: h.append(q)
            else: h = 'nobuild'
        return j, old, st, res, h
    finally: shutil.rmtree(w, ignore_errors=True)
jobs = []
for path in sorted(glob.glob('/repo/src/*.[ch]pp')):
    if FILES and os.path.basename(path) not in FILES: continue
    comment = False
    for ln, line in enumerate(open(path).read().split('\n'), 1):
        s = line.strip()
        if s.startswith('/*'): comment = True
        if comment:
            if '*/' in s: comment = False
            continue
        us = units_at(path, ln)
        if not us: continue
        ms = muts(line)
        if len(ms) > 14: ms = random.Random(ln).sample(ms, 3)
        for new, what in ms:
            if new.strip() != s: jobs.append((path, ln, new, what, us))
random.Random(3).shuffle(jobs)
if os.environ.get('MAX'): jobs = jobs[:int(os.environ['MAX'])]
print(len(jobs), "changes", flush=True)
if os.environ.get("COUNT"): import collections; print(collections.Counter(os.path.basename(j[0]) for j in jobs)); sys.exit()
n = {}
with mp.get_context('fork').Pool(int(os.environ.get('N', '3'))) as pool, open(OUT, 'w') as o:
    for (path, ln, new, what, us), old, st, res, h in pool.imap_unordered(job, jobs):
        n[st] = n.get(st, 0) + 1
        if st in ('accepted', 'undecided'):
            o.write('%s %s:%d %s | %s\n    - %s\n    + %s\n    hunt %s  %s\n' % (st.upper(), os.path.basename(path), ln, what, ','.join(sorted(us))[:100], old.strip(), new.strip(), h, {k: v for k, v in res.items() if v != 'proved'})); o.flush()
shutil.rmtree(W, ignore_errors=True)
print(n)
