from engine import *
import engine

def parts_of(seg):
    """atomic concatenation parts helper"""
    return seg

class Ctx:
    """Shared state of one verification unit (one function under contract)."""
    def __init__(self, prog, contracts, specnames=()):
        self.prog = prog; self.contracts = contracts
        self.names = count(); self.obls = []; self.leaves = []; self.params = []
        self.used_contracts = {}; self.inlined = set(); self.std_used = set(); self.loops_auto = 0; self.assumed = []
        self.dry = 0
        self.unit = None

def vtype(mt):
    if mt == 'int': return 'int'
    if mt == 'bool': return 'bool'
    if mt == 'str': return 'Seq<u8>'
    if mt == 'ss': return 'SS'
    if mt == 'unit': return '()'
    if isinstance(mt, tuple):
        if mt[0] == 'rec': return mt[1].replace('::', '_')
        if mt[0] == 'seq': return 'Seq<%s>' % vtype(mt[1])
        if mt[0] == 'map': return 'Map<Seq<u8>, %s>' % vtype(mt[1])
        if mt[0] == 'opt': return 'Option<%s>' % vtype(mt[1])
        if mt[0] == 'set': return 'Set<%s>' % vtype(mt[1])
        if mt[0] == 'arr': return 'Seq<u8>' if mt[1] in ('char', 'unsigned char') else 'Seq<int>'
        if mt[0] == 'ext': return mt[1]
    raise Unsupported('no verus type for %s' % (mt,))

HANDLES = {'rsa_st *', 'evp_pkey_st *', 'bio_st *', 'const evp_md_st *', 'const bio_method_st *', 'engine_st *', 'void *', 'const void *'}
STREAMS = {'std::stringstream', 'std::istream', 'std::ifstream'}

class Exec:
    def __init__(self, ctx):
        self.ctx = ctx; self.prog = ctx.prog
        self.throws = []          # pending (state, exc) of the statement being executed
        self.callstack = []
        self.loopq = {}           # per-contract loop counters
        self.act = None
        self.line = 0
        self.rtype = {}

    # ------------------------------------------------------------ types
    def mtype(self, ct):
        t = strip(ct)
        if t in INT_RANGES: return 'bool' if t == 'bool' else 'int'
        if t in self.prog.enums: return 'int'
        if t == 'std::string': return 'str'
        if t in STREAMS: return 'ss'
        if t == 'void': return 'unit'
        if t == 'std::nullptr_t': return 'ptr'
        m = re.fullmatch(r'std::(?:list|vector)<(.*)>', t)
        if m: return ('seq', self.mtype(m.group(1)))
        m = re.fullmatch(r'std::map<std::string, (.*)>', t)
        if m: return ('map', self.mtype(m.group(1)))
        m = re.fullmatch(r'std::shared_ptr<(.*)>', t)
        if m: return ('opt', self.mtype(m.group(1)))
        m = re.match(r'std::set<std::string', t)
        if m: return ('set', 'str')
        if t in self.prog.records: return ('rec', t)
        m = re.fullmatch(r'(.*)\[(\d+)\]', t)
        if m: return ('arr', strip(m.group(1)), int(m.group(2)))
        if t in HANDLES: return 'int'
        if t.startswith('std::fpos'): return 'int'
        if t.startswith('std::_Ios_') : return 'int'
        if t.startswith('std::function<'): return 'fun'
        if t.endswith('*') or t.endswith('*const'): return 'ptr'
        if 'iterator' in t: return 'iter'
        if t.startswith('(lambda'): return 'lam'
        if t.startswith('std::unique_ptr<evp_md_ctx_st'): return 'uptr'
        if t.startswith('std::pair<std::_Rb_tree'): return 'pair'
        if t in ('__ns_type', '__ns_class'): return 'int'
        raise Unsupported('type %s' % ct)

    def fields(self, rec):
        return self.prog.records[rec]['fields']
    def field_type(self, rec, f):
        if rec in self.prog.records:
            for x in self.fields(rec):
                if x['n'] == f: return x['t']
        raise Unsupported('field %s.%s' % (rec, f))

    def fresh_name(self, base):
        base = re.sub(r'\W', '_', str(base).split('#')[0]) or 'v'
        return '%s_%d' % (base, next(self.ctx.names))

    def from_term(self, mt, term, ct=None):
        v = V(mt, term)
        if mt == 'int' and ct and strip(ct) in INT_RANGES: v.lo, v.hi = INT_RANGES[strip(ct)]
        return v
    def fresh(self, st, mt, base, ct=None):
        if mt in ('ptr', 'iter', 'fun', 'lam', 'uptr', 'pair'): raise Unsupported('fresh value of kind %s (%s)' % (mt, base))
        if isinstance(mt, tuple) and mt[0] == 'rec':
            # havoc field by field, keeping non-modelled fields out
            nm = self.fresh_name(base); st.add('fresh', nm, vtype(mt)); v = V(mt, nm)
            self.range_facts(st, v); return v
        nm = self.fresh_name(base); st.add('fresh', nm, vtype(mt)); v = self.from_term(mt, nm, ct)
        if v.lo is not None: st.hyp('%d <= %s <= %d' % (v.lo, nm, v.hi))
        elif mt == 'int' and ct and strip(ct) in self.prog.enums:
            vals = sorted(self.prog.enums[strip(ct)].values()); v.lo, v.hi = vals[0], vals[-1]
            st.hyp('%d <= %s <= %d' % (v.lo, nm, v.hi))
        if mt == 'ss': st.hyp('ss_wf(%s)' % nm)
        if isinstance(mt, tuple) and mt[0] == 'arr': st.hyp('%s.len() == %d' % (nm, mt[2]))
        return v
    def range_facts(self, st, v):
        """integer fields of a record hold values of their C++ type"""
        rec = v.k[1]
        if rec not in self.prog.records: return
        for f in self.fields(rec):
            try: mt = self.mtype(f['t'])
            except Unsupported: continue
            if mt == 'int':
                ct = strip(f['t'])
                if ct in INT_RANGES: st.hyp('%d <= %s.%s <= %d' % (INT_RANGES[ct][0], v.t, f['n'], INT_RANGES[ct][1]))
                elif ct in self.prog.enums:
                    vals = sorted(self.prog.enums[ct].values()); st.hyp('%d <= %s.%s <= %d' % (vals[0], v.t, f['n'], vals[-1]))
            elif isinstance(mt, tuple) and mt[0] == 'rec': self.range_facts(st, V(mt, '%s.%s' % (v.t, f['n'])))
            elif mt == 'ss': st.hyp('ss_wf(%s.%s)' % (v.t, f['n']))

    # ------------------------------------------------------------ records
    def unpack(self, v):
        if v.x is not None and isinstance(v.x, Rec): return v.x
        rec = v.k[1]; fs = {}
        if rec in EXT_RECORDS:
            for n, mt in EXT_RECORDS[rec]: fs[n] = V(mt, '%s.%s' % (atom(v.t), n))
            return Rec(rec, v.t, fs)
        for f in self.fields(rec):
            try: mt = self.mtype(f['t'])
            except Unsupported: continue
            if mt in ('ptr', 'iter', 'lam', 'uptr', 'fun'): continue
            fs[f['n']] = self.from_term(mt, '%s.%s' % (atom(v.t), f['n']), f['t'])
        return Rec(rec, v.t, fs)
    def pack(self, v):
        """Verus term of a value"""
        if isinstance(v.k, tuple) and v.k[0] == 'rec':
            if v.x is None: return v.t
            r = v.x
            if r.base is not None and all(self._same_field(r, n, fv) for n, fv in r.f.items()): return r.base
            items = []
            for n, fv in r.f.items():
                if fv is None or fv.k in ('ptr', 'fun', 'iter'): continue
                items.append('%s: %s' % (n, self.pack(fv)))
            return '%s { %s }' % (vtype(v.k), ', '.join(items))
        if v.k == 'iter': return v.x['idx'].t
        if v.k == 'ptr':
            if v.x.get('target') == 'null': return '0'
            if 'off' in v.x: return v.x['off'].t
        if v.t is None: raise Unsupported('no term for value of kind %s' % (v.k,))
        return v.t
    def _same_field(self, r, n, fv):
        if fv is None: return True
        if fv.t == '%s.%s' % (atom(r.base), n): return True
        return isinstance(fv.k, tuple) and fv.k[0] == 'rec' and fv.x is not None and fv.x.base == '%s.%s' % (atom(r.base), n) and all(self._same_field(fv.x, m, w) for m, w in fv.x.f.items())
    def get_path(self, v, path, st):
        for p in path:
            if isinstance(p, str):
                if not (isinstance(v.k, tuple) and v.k[0] == 'rec'): raise Unsupported('field %s of %s' % (p, v.k))
                r = self.unpack(v)
                if p not in r.f: raise Unsupported('field %s of %s not modelled' % (p, r.name))
                v = r.f[p]
                if v is None: raise Unsupported('uninitialised field %s' % p)
            elif p[0] == 'idx':
                if v.k == 'str' or (isinstance(v.k, tuple) and v.k[0] == 'arr'):
                    v = self.byte_at(v, p[1])
                else: v = self.from_term(v.k[1], '%s[%s]' % (atom(v.t), p[1]))
            elif p[0] == 'some': v = self.from_term(v.k[1], '%s->0' % atom(self.pack(v)))
            elif p[0] == 'key': v = self.from_term(v.k[1], '%s[%s]' % (atom(v.t), p[1]))
            else: raise Unsupported('path %s' % (p,))
        return v
    def byte_at(self, v, idx):
        if isinstance(v.k, tuple) and v.k[0] == 'arr':
            if v.k[1] == 'unsigned char':
                t = '%s[%s]' % (atom(v.t), idx); return V('int', '(%s as int)' % t, lo=0, hi=255, prov=('u8', t))
            if v.k[1] != 'char':
                lo, hi = INT_RANGES[v.k[1]]
                return V('int', '%s[%s]' % (atom(v.t), idx), lo=lo, hi=hi)
        t = '%s[%s]' % (atom(v.t), idx)
        return V('int', 's8(%s as int)' % t, lo=-128, hi=127, prov=('s8', t))
    def set_path(self, v, path, nv, st):
        if not path: return nv
        p = path[0]
        if isinstance(p, str):
            r = self.unpack(v); f = dict(r.f)
            f[p] = self.set_path(f.get(p), path[1:], nv, st) if len(path) > 1 else nv
            return V(v.k, None, x=Rec(r.name, r.base, f))
        if p[0] == 'idx':
            if v.k == 'str' or (isinstance(v.k, tuple) and v.k[0] == 'arr'):
                return self.let(st, V(v.k, '%s.update(%s, %s)' % (atom(v.t), p[1], self.to_u8(nv) if vtype(v.k) == 'Seq<u8>' else nv.t)), 'arr')
            inner = self.from_term(v.k[1], '%s[%s]' % (atom(v.t), p[1]))
            return self.let(st, V(v.k, '%s.update(%s, %s)' % (atom(v.t), p[1], self.pack(self.set_path(inner, path[1:], nv, st)))), 'seq')
        if p[0] == 'some':
            inner = self.from_term(v.k[1], '%s->0' % atom(self.pack(v)))
            return self.let(st, V(v.k, 'Some(%s)' % self.pack(self.set_path(inner, path[1:], nv, st))), 'opt')
        if p[0] == 'key':
            inner = self.from_term(v.k[1], '%s[%s]' % (atom(v.t), p[1]))
            return self.let(st, V(v.k, '%s.insert(%s, %s)' % (atom(v.t), p[1], self.pack(self.set_path(inner, path[1:], nv, st)))), 'map')
        raise Unsupported('set path')
    def load(self, st, ref):
        if ref.root not in st.store: raise Unsupported('unknown location %s' % (ref.root,))
        v = st.store[ref.root]
        if v is None: raise Unsupported('read of uninitialised %s' % (ref.root,))
        return self.get_path(v, ref.path, st)
    def save(self, st, ref, v, base=None):
        v = self.let(st, v, base or (ref.path[-1] if ref.path and isinstance(ref.path[-1], str) else ref.root))
        self.note_static(st, ref.root)
        st.store[ref.root] = self.set_path(st.store.get(ref.root), ref.path, v, st)
    # objects of static storage duration: roots '@s:' (local) and '@g:' (namespace scope) are shared by all threads, '@t:' is per thread.
    # '@shared' counts the writes to shared ones; every function under contract leaves it as it found it.
    def note_static(self, st, root):
        if root[:3] in ('@s:', '@g:') and '@shared' in st.store: st.store['@shared'] = self.let(st, V('int', '(%s + 1int)' % st.store['@shared'].t), 'shared')
    def closed(self, e):
        """an initialiser whose value does not depend on where it is first reached"""
        st = [e]
        while st:
            n = st.pop()
            if isinstance(n, dict):
                if n.get('k') == 'CXXThisExpr' or (n.get('k') == 'DeclRefExpr' and 'vt' in n and not n.get('global')): return False
                st += list(n.values())
            elif isinstance(n, list): st += n
        return True
    def declare_static(self, v, st):
        root = '%s%s.%s' % ('@t:' if v.get('tls') else '@s:', v['n'], v['id']); ct = v['t']
        self.act.names.setdefault(v['n'], []).append(v['id']); self.act.env[v['id']] = Ref(root); self.rtype[root] = ct
        if st.store.get(root) is not None: return
        if (ct.startswith('const') or self.only_read(v['id'])) and not v.get('tls') and 'init' in v and self.closed(v['init']):
            st.store[root] = None
            val = self.eval_for(v['init'], st, ct); st.store[root] = self.let(st, val, v['n']) if val.t is not None else val
        else: st.store[root] = self.fresh(st, self.mtype(ct), v['n'], ct)      # whatever earlier calls, of any thread, left there

    def let(self, st, v, base):
        """name a value if its term is large"""
        if v.c is not None or v.t is None: return v
        if len(v.t) < 40 and v.t.count('(') <= 1: return v
        nm = self.fresh_name(str(base).split('#')[0].split('.')[-1])
        st.add('let', nm, (vtype(v.k), v.t))
        w = V(v.k, nm, v.c, v.lo, v.hi, v.prov, v.x); w.pk = v.pk
        if v.prov and len(v.prov[1]) > 60: w.prov = None
        return w

    # ------------------------------------------------------------ obligations
    def oblige(self, st, term, desc, fnname=None):
        if term == 'true': return
        o = Oblig(None, fnname or (self.act.fn['f'] if self.act else '?'), self.line, desc)
        st.add('obl', term, o)
    def leaf(self, st, why):
        if not self.ctx.dry: self.ctx.leaves.append((st.hist, why))
    def raise_(self, st, exc):
        self.throws.append((st, exc))

    # ------------------------------------------------------------ integers
    def rng(self, ct):
        ct = strip(ct)
        if ct in INT_RANGES: return INT_RANGES[ct]
        if ct in self.prog.enums: return (-2**31, 2**32-1)
        return (-2**63, 2**64-1)
    def conv_int(self, st, v, to):
        to = strip(to)
        if to in self.prog.enums: return v
        if to == 'bool':
            return self.truth(st, v)
        lo, hi = self.rng(to)
        if v.k == 'bool':
            if v.c is not None: return mkint(int(v.c))
            return V('int', '(if %s { 1int } else { 0int })' % v.t, lo=0, hi=1)
        if v.k != 'int': raise Unsupported('integral cast of %s' % (v.k,))
        if v.c is not None:
            c = v.c
            w = (c - lo) % (hi - lo + 1) + lo
            return mkint(w)
        vlo = v.lo if v.lo is not None else -10**30; vhi = v.hi if v.hi is not None else 10**30
        if lo <= vlo and vhi <= hi: return v
        if to in ('char', 'signed char'):
            if v.prov and v.prov[0] == 'u8': return V('int', 's8(%s as int)' % v.prov[1], lo=-128, hi=127, prov=('s8', v.prov[1]))
            return V('int', 's8(%s)' % v.t, lo=-128, hi=127, prov=('s8', 'b8(%s)' % v.t))
        if to == 'unsigned char':
            if v.prov and v.prov[0] == 's8': return V('int', '(%s as int)' % v.prov[1], lo=0, hi=255, prov=('u8', v.prov[1]))
            return V('int', '(b8(%s) as int)' % v.t, lo=0, hi=255, prov=('u8', 'b8(%s)' % v.t))
        sh = {'int': 'i32', 'unsigned int': 'u32', 'long': 'i64', 'unsigned long': 'u64', 'unsigned long long': 'u64', 'long long': 'i64', 'unsigned short': 'u16', 'short': 'i16'}[to]
        return V('int', 'cast_%s(%s)' % (sh, v.t), lo=lo, hi=hi)
    def to_u8(self, v):
        """byte stored when a char is put into a string"""
        if v.c is not None: return '%du8' % (v.c % 256)
        if v.prov: return v.prov[1]
        return 'b8(%s)' % v.t
    def truth(self, st, v):
        if v.k == 'bool': return v
        if v.k == 'int':
            if v.c is not None: return mkbool(v.c != 0)
            return V('bool', '(%s != 0)' % v.t)
        if v.k == 'ptr':
            if v.x['target'] == 'null': return mkbool(False)
            if v.x['target'] == 'sp': return V('bool', '(%s is Some)' % atom(self.pack(self.load(st, v.x['ref']))))
            return mkbool(True)
        if v.k == 'uptr' or v.k == 'fun': raise Unsupported('truth of %s' % v.k)
        if isinstance(v.k, tuple) and v.k[0] == 'opt': return V('bool', '(%s is Some)' % atom(v.t))
        raise Unsupported('truth of %s' % (v.k,))

    def arith(self, st, op, a, b, ct):
        ct = strip(ct)
        if a.k == 'bool': a = self.conv_int(st, a, 'int')
        if b.k == 'bool': b = self.conv_int(st, b, 'int')
        lo, hi = self.rng(ct)
        if op in ('%', '/'):
            if b.c is None: self.oblige(st, '(%s != 0)' % b.t, 'division by zero')
            if a.c is not None and b.c: 
                q = abs(a.c) // abs(b.c) * (1 if (a.c >= 0) == (b.c > 0) else -1)
                return mkint(q if op == '/' else a.c - q * b.c)
            if (a.lo is None or a.lo < 0): raise Unsupported('signed division')
            r = V('int', '(%s %s %s)' % (a.t, op, b.t))
            if b.c:
                if op == '%': r.lo, r.hi = 0, b.c - 1
                elif a.hi is not None: r.lo, r.hi = 0, a.hi // b.c
            return r
        if op in ('&', '|', '^', '<<', '>>'):
            if a.c is not None and b.c is not None:
                r = {'&': a.c & b.c, '|': a.c | b.c, '^': a.c ^ b.c, '<<': a.c << b.c, '>>': a.c >> b.c}[op]
                return self.conv_int(st, mkint(r), ct)
            if op == '<<' and b.c is not None:
                return self.arith(st, '*', a, mkint(2**b.c), ct)
            if op == '>>' and b.c is not None and a.lo is not None:      # arithmetic shift (gcc, clang)
                return V('int', '(%s / %d)' % (a.t, 2**b.c), lo=a.lo >> b.c, hi=a.hi >> b.c)
            if op == '&' and b.c is not None and b.c >= 0 and (b.c & (b.c+1)) == 0:
                if a.lo is not None and a.lo >= 0 and a.hi <= b.c: return a
                return V('int', '(%s %% %d)' % (a.t, b.c + 1), lo=0, hi=b.c)
            if op == '|':
                # (x * 2^k) | y with 0 <= y < 2^k
                for p, q in ((a, b), (b, a)):
                    m = re.fullmatch(r'\((.*) \* (\d+)\)', p.t or '')
                    if m and balanced(m.group(1)) and q.lo is not None and q.lo >= 0 and q.hi < int(m.group(2)) and p.lo is not None and p.lo >= 0:
                        return self.arith(st, '+', p, q, ct)
            n = {'&': 'bit_and', '|': 'bit_or', '^': 'bit_xor', '<<': 'bit_shl', '>>': 'bit_shr'}[op]
            return V('int', '%s(%s, %s)' % (n, a.t, b.t))
        if a.c is not None and b.c is not None:
            r = {'+': a.c + b.c, '-': a.c - b.c, '*': a.c * b.c}[op]
            if lo <= r <= hi: return mkint(r)
            if ct in UNSIGNED: return mkint(r % (hi + 1))
            raise Unsupported('constant overflow')
        al, ah, bl, bh = a.lo, a.hi, b.lo, b.hi
        nlo = nhi = None
        if None not in (al, ah, bl, bh):
            if op == '+': nlo, nhi = al + bl, ah + bh
            elif op == '-': nlo, nhi = al - bh, ah - bl
            else:
                c = [al*bl, al*bh, ah*bl, ah*bh]; nlo, nhi = min(c), max(c)
        plain = '(%s %s %s)' % (a.t, op, b.t)
        if nlo is not None and lo <= nlo and nhi <= hi: return V('int', plain, lo=nlo, hi=nhi)
        if ct in UNSIGNED:
            n = {'+': 'add', '-': 'sub', '*': 'mul'}[op]
            if op == '-' and nlo is not None and nhi is not None and nlo >= 0: return V('int', plain, lo=nlo, hi=hi)
            return V('int', '%s_%s(%s, %s)' % (UNSIGNED[ct], n, a.t, b.t), lo=lo, hi=hi)
        self.oblige(st, '(%d <= %s <= %d)' % (lo, plain, hi), 'no signed overflow in %s' % op)
        return V('int', plain, lo=max(lo, nlo) if nlo is not None else lo, hi=min(hi, nhi) if nhi is not None else hi)

    def compare(self, st, op, a, b):
        if a.k == 'ptr' or b.k == 'ptr':
            return self.compare_ptr(st, op, a, b)
        if a.k == 'bool' and b.k == 'bool':
            if op == '==': return mkbool(a.c == b.c) if a.c is not None and b.c is not None else V('bool', '(%s == %s)' % (a.t, b.t))
            if op == '!=': return b_not(self.compare(st, '==', a, b))
        if a.k == 'bool': a = self.conv_int(st, a, 'int')
        if b.k == 'bool': b = self.conv_int(st, b, 'int')
        if a.k != 'int' or b.k != 'int': raise Unsupported('comparison of %s and %s' % (a.k, b.k))
        if a.c is not None and b.c is not None:
            return mkbool({'==': a.c == b.c, '!=': a.c != b.c, '<': a.c < b.c, '<=': a.c <= b.c, '>': a.c > b.c, '>=': a.c >= b.c}[op])
        if op in ('==', '!='):
            if a.c is not None: a, b = b, a
            t = None
            if b.c is not None and a.prov:
                if a.prov[0] == 's8' and -128 <= b.c <= 127: t = '(%s == %du8)' % (a.prov[1], b.c % 256)
                elif a.prov[0] == 'u8' and 0 <= b.c <= 255: t = '(%s == %du8)' % (a.prov[1], b.c)
                else: return mkbool(op == '!=')
            elif a.prov and b.prov and a.prov[0] == b.prov[0]: t = '(%s == %s)' % (a.prov[1], b.prov[1])
            if t is None: t = '(%s == %s)' % (a.t, b.t)
            return V('bool', t if op == '==' else '!' + t)
        return V('bool', '(%s %s %s)' % (a.t, op, b.t))
    def compare_ptr(self, st, op, a, b):
        an = a.k == 'ptr' and a.x['target'] == 'null'; bn = b.k == 'ptr' and b.x['target'] == 'null'
        if an and bn: r = mkbool(True)
        elif bn or an:
            o = a if bn else b
            if o.k == 'ptr': r = b_not(self.truth(st, o))
            elif o.k == 'int': r = V('bool', '(%s == 0)' % o.t)
            else: raise Unsupported('pointer comparison')
        elif a.k == 'ptr' and b.k == 'ptr' and a.x['target'] == b.x['target'] == 'buf' and a.x['ref'] == b.x['ref']:
            return self.compare(st, op, a.x['off'], b.x['off'])
        else: raise Unsupported('pointer comparison')
        if op == '==': return r
        if op == '!=': return b_not(r)
        raise Unsupported('pointer order')

    # ------------------------------------------------------------ branching
    def split(self, st, cond):
        """(state where cond holds, state where it does not); None when statically impossible"""
        if cond.c is not None: return (st, None) if cond.c else (None, st)
        if len(cond.t) > 60:
            nm = self.fresh_name('c'); st.add('let', nm, ('bool', cond.t)); cond = V('bool', nm)
        a = st.fork(); a.hyp(cond.t, True)
        b = st.fork(); b.hyp(b_not(cond).t, True)
        return a, b

    def merge(self, states, values=None):
        """join states; values: optional list of V to be merged too. Returns (state, value)"""
        if values is None: values = [None] * len(states)
        if len(states) == 1: return states[0], values[0]
        anc = common_ancestor([s.hist for s in states])
        new = State(dict(states[0].store), anc)
        guards = []
        for s in states:
            g = 'true'
            for n in chain_to(s.hist, anc):
                if n.kind in ('let', 'fresh'): new.add(n.kind, n.a, n.b)
                elif n.kind == 'hyp':
                    if n.b: g = t_and(g, n.a)
                    else: new.hyp(t_implies(g, n.a))
                elif n.kind == 'obl': new.add('obl', t_implies(g, n.a), n.b)
                elif n.kind == 'hint': new.add('hint', n.a, t_and(g, n.b or 'true'))
                if len(g) > 80:
                    nm = self.fresh_name('g'); new.add('let', nm, ('bool', g)); g = nm
            guards.append(g)
        if not (len(guards) == 2 and (guards[0] == '!' + guards[1] or guards[1] == '!' + guards[0] or guards[0] == '!' + atom(guards[1]))):
            t = 'false'
            for g in guards: t = t_or(t, g)
            if t != 'true': new.hyp(t, True)
        keys = []
        for s in states:
            for k in s.store:
                if k not in keys: keys.append(k)
        store = {}
        for k in keys:
            vs = [s.store.get(k, mkbool(False) if k.startswith('@shared:') else 'absent') for s in states]
            if any(isinstance(v, str) for v in vs): continue      # gone out of scope in one branch
            store[k] = self.join(new, guards, vs, k)
        new.store = store
        val = None
        if values[0] is not None: val = self.join(new, guards, values, 'r')
        return new, val
    def join(self, st, guards, vs, base):
        v0 = vs[0]
        if all(v is v0 for v in vs): return v0
        if any(v is None for v in vs): return None
        if any(isinstance(v, (Ref, tuple)) for v in vs):
            if all(v == v0 for v in vs): return v0
            raise Unsupported('reference bound differently in branches')
        if all(v.k == v0.k and v.t is not None and v.t == v0.t for v in vs) and v0.x is None: return v0
        ks = {('bool' if v.k == 'bool' else v.k if not isinstance(v.k, dict) else '?') for v in vs}
        if len(ks) > 1: 
            if ks <= {'int', 'bool'}: vs = [self.conv_int(st, v, 'int') for v in vs]; v0 = vs[0]
            else: raise Unsupported('joining values of kinds %s' % ks)
        k = v0.k
        if isinstance(k, tuple) and k[0] == 'rec' and any(v.x is not None for v in vs):
            rs = [self.unpack(v) for v in vs]
            fs = {}
            for n in rs[0].f: fs[n] = self.join(st, guards, [r.f.get(n) for r in rs], n)
            bases = {r.base for r in rs}
            return V(k, None, x=Rec(rs[0].name, rs[0].base if len(bases) == 1 else None, fs))
        if k == 'iter':
            xs = [v.x for v in vs]
            if any(x['cont'] != xs[0]['cont'] or x['kind'] != xs[0]['kind'] for x in xs): raise Unsupported('joining iterators')
            idx = self.join(st, guards, [x['idx'] for x in xs], base)
            d = dict(xs[0]); d['idx'] = idx; return V('iter', None, x=d)
        if k == 'ptr':
            xs = [v.x for v in vs]
            if all(x.get('target') == xs[0].get('target') and x.get('ref') == xs[0].get('ref') and x.get('key') == xs[0].get('key') for x in xs):
                if any(x.get('data') != xs[0].get('data') for x in xs): raise Unsupported('joining pointers')
                if 'off' in xs[0]:
                    d = dict(xs[0])
                    if 's' in d:
                        d['plain'] = all(x.get('plain') or (x['s'].c is not None and b'\0' not in x['s'].c) for x in xs)
                        d['s'] = self.join(st, guards, [x['s'] for x in xs], base)
                    d['off'] = self.join(st, guards, [x['off'] for x in xs], base); return V('ptr', None, x=d)
                return v0
            raise Unsupported('joining pointers')
        if v0.t is None: 
            if all(v.x == v0.x for v in vs): return v0
            raise Unsupported('joining %s' % (k,))
        t = vs[-1].t
        for g, v in reversed(list(zip(guards, vs))[:-1]):
            if g == 'true': t = v.t
            elif v.t != t: t = '(if %s { %s } else { %s })' % (g, v.t, t)
        if k == 'int':
            t = re.sub(r'\{ (\d+) \}', r'{ \1int }', t)
        nm = self.fresh_name(str(base).split('#')[0]); st.add('let', nm, (vtype(k), t))
        lo = hi = None
        if k == 'int' and all(v.lo is not None for v in vs): lo, hi = min(v.lo for v in vs), max(v.hi for v in vs)
        return V(k, nm, lo=lo, hi=hi)

    # ------------------------------------------------------------ statements
    # outcomes: list of (kind, state, payload); kind in next break continue return throw goto
    def exec_stmt(self, s, st):
        if s is None: return [('next', st, None)]
        self.line = s.get('l', self.line)
        saved = self.throws; self.throws = []
        outs = self.exec_stmt1(s, st)
        outs = outs + [('throw', a, b) for a, b in self.throws]
        self.throws = saved
        return outs
    def exec_stmt1(self, s, st):
        k = s['k']
        if k == 'CompoundStmt': return self.exec_block(s.get('c', []), st)
        if k == 'NullStmt': return [('next', st, None)]
        if k == 'DeclStmt':
            for v in s['vars']:
                self.declare(v, st)
                for t in self.ctx.contract.get('decl_hints', {}).get(v['n'], []) if len(self.callstack) == 1 else []:
                    self.soft_hint(st, t, lambda name, fields, tag: self.loop_lookup(name, fields, tag, st, st))
            return [('next', st, None)]
        if k == 'ReturnStmt':
            val = None
            if 'v' in s: val = self.eval_for(s['v'], st, self.act.fn['ret'])
            return [('return', st, val)]
        if k == 'IfStmt':
            if s.get('init'): raise Unsupported('if-init')
            if s.get('var'): self.declare(s['var'], st)
            c = self.eval_cond(s['cond'], st)
            a, b = self.split(st, c)
            outs = []; nxt = []
            if a is not None:
                for o in self.exec_stmt(s['then'], a):
                    (nxt if o[0] == 'next' else outs).append(o)
            if b is not None:
                for o in self.exec_stmt(s['else'], b):
                    (nxt if o[0] == 'next' else outs).append(o)
            if nxt:
                m, _ = self.merge([o[1] for o in nxt]) if len(nxt) > 1 else (nxt[0][1], None)
                outs.append(('next', m, None))
            return outs
        if k in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt'): return self.exec_loop(s, st)
        if k == 'BreakStmt': return [('break', st, None)]
        if k == 'ContinueStmt': return [('continue', st, None)]
        if k == 'GotoStmt': return [('goto', st, s['label'])]
        if k == 'LabelStmt': return self.exec_stmt(s['sub'], st)
        if k == 'SwitchStmt': return self.exec_switch(s, st)
        if k == 'CXXTryStmt': return self.exec_try(s, st)
        if k in ('CaseStmt', 'DefaultStmt'): return self.exec_stmt(s['sub'], st)
        # expression statement
        self.eval_discard(s, st)
        if st.hist == 'dead': return []
        return [('next', st, None)]
    def exec_block(self, stmts, st):
        # outcomes of a statement list, with goto to a label in the same list
        return self.exec_from(stmts, 0, [st])
    def exec_from(self, stmts, i, sts):
        outs = []; cur = sts
        while i < len(stmts):
            if not cur: break
            if len(cur) > 1:
                m, _ = self.merge(cur); cur = [m]
            nxt = []
            for o in self.exec_stmt(stmts[i], cur[0]):
                if o[0] == 'next': nxt.append(o[1])
                else: outs.append(o)
            cur = nxt; i += 1
        outs += [('next', c, None) for c in cur]
        # forward gotos to labels of this list
        res = []
        for o in outs:
            if o[0] == 'goto':
                for j, s in enumerate(stmts):
                    if s['k'] == 'LabelStmt' and s['label'] == o[2]:
                        res += self.exec_from(stmts, j, [o[1]]); break
                else: res.append(o)
            else: res.append(o)
        return res
    def exec_switch(self, s, st):
        c = self.eval(s['cond'], st)
        if c.k == 'bool': c = self.conv_int(st, c, 'int')
        body = s['body'].get('c', []) if s['body']['k'] == 'CompoundStmt' else [s['body']]
        # flatten nested case labels: list of (labels, stmt)
        items = []; 
        for b in body:
            labels = []
            while b is not None and b['k'] in ('CaseStmt', 'DefaultStmt'):
                labels.append('default' if b['k'] == 'DefaultStmt' else self.const_of(b['v']))
                b = b['sub']
            items.append((labels, b))
        allv = [l for ls, _ in items for l in ls if l != 'default']
        outs = []; nxt = []
        rest = st
        conds = []
        ec = s['cond']
        while ec['k'] in ('ImplicitCastExpr', 'ParenExpr') and ec.get('c'): ec = ec['c'][0]
        enum = [v for v in self.prog.enums.get(strip(ec.get('t', '')), {}).values()]
        def entry(i, state):
            os = self.exec_from([b for _, b in items[i:]], 0, [state])
            for o in os:
                if o[0] in ('next', 'break'): nxt.append(o[1])
                else: outs.append(o)
        dflt = None
        for i, (ls, b) in enumerate(items):
            if not ls: continue
            if 'default' in ls: dflt = i
            vals = [l for l in ls if l != 'default']
            if not vals: continue
            if rest is None: continue
            cv = mkbool(False)
            for v in vals:
                e = self.compare(rest, '==', c, mkint(v)); cv = self.b_or(cv, e)
            a, rest = self.split(rest, cv)
            if a is not None:
                if 'default' in ls: raise Unsupported('default grouped with case')
                entry(i, a)
        if rest is not None:
            if dflt is not None: entry(dflt, rest)
            elif enum and set(enum) <= set(allv): self.oblige(rest, 'false', 'the switch covers the value'); self.leaf(rest, 'switch')
            else: nxt.append(rest)
        if nxt:
            m, _ = self.merge(nxt); outs.append(('next', m, None))
        return outs
    def b_or(self, a, b):
        if a.c is not None: return b if not a.c else a
        if b.c is not None: return a if not b.c else b
        return V('bool', '(%s || %s)' % (a.t, b.t))
    def b_and(self, a, b):
        if a.c is not None: return b if a.c else a
        if b.c is not None: return a if b.c else b
        return V('bool', '(%s && %s)' % (a.t, b.t))
    def const_of(self, e):
        if 'cv' in e: return int(e['cv'])
        raise Unsupported('non-constant case')
    def exec_try(self, s, st):
        outs = []
        for o in self.exec_stmt(s['body'], st):
            if o[0] != 'throw': outs.append(o); continue
            exc = o[2]; handled = False
            for h in s['handlers']:
                ht = strip(h['t']) if 't' in h else '...'
                if ht == '...' or ht == exc['cls'] or ht in self.bases(exc['cls']):
                    if 'var' in h: o[1].store[('%s' % h['var']['id'])] = None
                    outs += self.exec_stmt(h['body'], o[1]); handled = True; break
            if not handled: outs.append(o)
        nxt = [o[1] for o in outs if o[0] == 'next']
        outs = [o for o in outs if o[0] != 'next']
        if nxt: outs.append(('next', self.merge(nxt)[0], None))
        return outs
    def bases(self, cls):
        r = set()
        std = {'std::runtime_error': ['std::exception'], 'std::bad_alloc': ['std::exception'], 'std::out_of_range': ['std::logic_error', 'std::exception']}
        todo = list(self.prog.records.get(cls, {}).get('bases', [])) + std.get(cls, [])
        while todo:
            b = strip(todo.pop()); r.add(b); todo += std.get(b, []) + list(self.prog.records.get(b, {}).get('bases', []))
        return r

    # ------------------------------------------------------------ declarations
    def root_of(self, vid, name):
        return '%s#%s.%d' % (name, vid, self.act.id)
    def declare(self, v, st):
        self.line = v.get('l', self.line)
        if v.get('staticlocal') and not v['t'].rstrip().endswith('&'): return self.declare_static(v, st)
        root = self.root_of(v['id'], v['n'])
        ct = v['t']
        self.act.names.setdefault(v['n'], []).append(v['id'])
        if ct.rstrip().endswith('&'):
            ref = self.lval_or_temp(v['init'], st, v['n'])
            self.act.env[v['id']] = ref
            self.set_binding(st, v['id'], ref); return
        self.act.env[v['id']] = Ref(root); self.rtype[root] = ct
        if 'init' not in v:
            mt = self.mtype(ct)
            if isinstance(mt, tuple) and mt[0] == 'arr':
                st.store[root] = self.fresh(st, mt, v['n'])
            else: st.store[root] = None
            return
        st.store[root] = None
        val = self.eval_for(v['init'], st, ct)
        st.store[root] = self.let(st, val, v['n']) if val.t is not None else val
    def only_read(self, vid):
        """every use of the variable in the current function reads an element or the value"""
        st = [(self.act.fn['body'], ())]
        while st:
            n, par = st.pop()
            if isinstance(n, dict):
                if n.get('k') == 'DeclRefExpr' and n.get('id') == vid:
                    ps = [p for p in par if 'k' in p]
                    cks = [p.get('ck', p['k']) for p in reversed(ps)]
                    if cks[:1] != ['LValueToRValue'] and cks[:3] != ['ArrayToPointerDecay', 'ArraySubscriptExpr', 'LValueToRValue']: return False
                st += [(v, par + (n,)) for v in n.values()]
            elif isinstance(n, list): st += [(v, par) for v in n]
        return True
    def set_binding(self, st, vid, ref): pass
    def lval_or_temp(self, e, st, base='tmp'):
        """location denoted by e, materialising a temporary for prvalues"""
        if e.get('lv'):
            try: return self.lval(e, st)
            except NotLvalue: pass
        v = self.eval(e, st)
        root = self.fresh_name('tmp_' + base)
        st.store[root] = v
        return Ref(root)
    def eval_for(self, e, st, ct):
        """value of e converted for initialising an object of type ct"""
        if ct.rstrip().endswith('&') and e.get('lv'):
            try: return V('lref', None, x=self.lval(e, st))
            except NotLvalue: pass
        v = self.eval(e, st)
        m = re.fullmatch(r'(?:const )?(?:unsigned )?char\[(\d+)\]', strip(ct))
        if m and v.k == 'str' and v.c is not None: return V(self.mtype(ct), lit_bytes(v.c + b'\0' * (int(m.group(1)) - len(v.c))).t)
        return v

class NotLvalue(Exception): pass
EXT_RECORDS = {}
