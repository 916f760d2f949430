"""cppvc: verification-condition generator for the subset of C++ used by libdkimpp.

Input : the type-checked clang AST (astdump), contracts (python annotation tables).
Output: Verus proof functions, one per execution path between cut points; every obligation is one `assert`.
"""
import re, json, zlib
from itertools import count

INT_RANGES = {
    'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255),
    'short': (-2**15, 2**15-1), 'unsigned short': (0, 2**16-1),
    'int': (-2**31, 2**31-1), 'unsigned int': (0, 2**32-1),
    'long': (-2**63, 2**63-1), 'unsigned long': (0, 2**64-1),
    'long long': (-2**63, 2**63-1), 'unsigned long long': (0, 2**64-1),
    'bool': (0, 1),
}
UNSIGNED = {'unsigned int': 'u32', 'unsigned long': 'u64', 'unsigned long long': 'u64'}
NPOS = 2**64 - 1

class Unsupported(Exception):
    """The construct is outside the verifier's reach (never reported as a violation)."""

def untag(t):
    """a clause may start with the properties it belongs to, as in '[C06,C07] x > 0'"""
    m = re.match(r'(\[C[\dC,]*\] )', t)
    return (m.group(1), t[m.end():]) if m else ('', t)

def strip(t):
    t = t.strip()
    while True:
        o = t
        for p in ('const ', 'volatile '):
            if t.startswith(p): t = t[len(p):]
        for s in (' const', '&&', '&', ' '):
            if t.endswith(s): t = t[:-len(s)]
        if t == o: return t

def balanced(s):
    d = 0
    for c in s:
        if c in '([{': d += 1
        elif c in ')]}':
            d -= 1
            if d < 0: return False
    return d == 0

def atom(t):
    if re.fullmatch(r'[\w.@]+', t): return t
    if t.startswith('(') and t.endswith(')') and balanced(t[1:-1]): return t
    if re.fullmatch(r'[\w:]+\(.*\)', t, re.S) and balanced(t[t.index('(')+1:-1]): return t
    return '(' + t + ')'

class V:
    """A symbolic value. kind is a model type; term a Verus expression."""
    __slots__ = ('k', 't', 'c', 'lo', 'hi', 'prov', 'x', 'pk')
    def __init__(self, k, t=None, c=None, lo=None, hi=None, prov=None, x=None):
        self.k = k; self.t = t; self.c = c; self.lo = lo; self.hi = hi; self.prov = prov; self.x = x; self.pk = False
    def __repr__(self): return 'V(%s,%s)' % (self.k, self.t if self.t is not None else self.x)

def mkint(c): return V('int', str(c) if c >= 0 else '(%d)' % c, c=c, lo=c, hi=c)
def mkbool(b): return V('bool', 'true' if b else 'false', c=b)
NAMED_LITS = {b'arc-message-signature': 'arc_sig_lit()', b'0123456789': 'digits_lit()',
              b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789': 'alnum_lit()',
              b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-': 'alnum_dash_lit()'}
ILITS = {}      # integer tables used: name -> ints
LITS = {}       # long literals used: name -> bytes
def lit_bytes(bs):
    bs = list(bs)
    if bytes(bs) in NAMED_LITS: return V('str', NAMED_LITS[bytes(bs)], c=bytes(bs))
    if len(bs) > 14:
        n = 'lit_%08x' % (zlib.crc32(bytes(bs)) & 0xffffffff); LITS[n] = bytes(bs)
        return V('str', n + '()', c=bytes(bs))
    return V('str', 'seq![' + ', '.join('%du8' % b for b in bs) + ']' if bs else 'Seq::<u8>::empty()', c=bytes(bs))

# ---- boolean helpers over terms
def b_not(v):
    if v.c is not None: return mkbool(not v.c)
    t = v.t
    if t.startswith('!') and atom(t[1:]) == t[1:]: return V('bool', t[1:])
    return V('bool', '!' + atom(t))
def t_and(a, b):
    if a == 'true': return b
    if b == 'true': return a
    if a == 'false' or b == 'false': return 'false'
    return '(%s && %s)' % (a, b)
def t_or(a, b):
    if a == 'false': return b
    if b == 'false': return a
    if a == 'true' or b == 'true': return 'true'
    return '(%s || %s)' % (a, b)
def t_implies(a, b):
    if a == 'true': return b
    return '(%s ==> %s)' % (a, atom(b))

class Node:
    __slots__ = ('p', 'kind', 'a', 'b', 'n', 'depth')
    ctr = count()
    def __init__(self, p, kind, a=None, b=None):
        self.p = p; self.kind = kind; self.a = a; self.b = b; self.n = next(Node.ctr); self.depth = (p.depth + 1) if p else 0

def chain_to(node, stop=None):
    out = []
    while node is not None and node is not stop:
        out.append(node); node = node.p
    out.reverse(); return out

def common_ancestor(nodes):
    cur = list(nodes)
    while True:
        if all(c is cur[0] for c in cur): return cur[0]
        m = max(c.depth for c in cur)
        # lower the deepest ones
        if all(c.depth == m for c in cur): cur = [c.p for c in cur]
        else: cur = [c.p if c.depth == m else c for c in cur]

class State:
    def __init__(self, store=None, hist=None):
        self.store = store if store is not None else {}
        self.hist = hist
    def fork(self): return State(dict(self.store), self.hist)
    def become(self, o): self.store = o.store; self.hist = o.hist
    def add(self, kind, a=None, b=None): self.hist = Node(self.hist, kind, a, b)
    def hyp(self, t, branch=False):
        if t == 'true': return
        self.add('hyp', t, branch)

class Rec:
    """record value: a base term plus updated fields (all fields present once unpacked)"""
    __slots__ = ('name', 'base', 'f')
    def __init__(self, name, base, f): self.name = name; self.base = base; self.f = f

class Ref:
    """binding of a C++ reference / pointer to an lvalue"""
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()): self.root = root; self.path = tuple(path)
    def sub(self, *p): return Ref(self.root, self.path + p)
    def __eq__(self, o): return isinstance(o, Ref) and o.root == self.root and o.path == self.path
    def __hash__(self): return hash((self.root, self.path))
    def __repr__(self): return 'Ref(%s,%s)' % (self.root, self.path)

class Activation:
    def __init__(self, fn, this=None, parent=None):
        self.fn = fn; self.this = this; self.env = {}; self.names = {}; self.parent = parent
        self.id = next(Activation.ctr)
    ctr = count()

class Oblig:
    def __init__(self, name, fn, line, desc): self.name = name; self.fn = fn; self.line = line; self.desc = desc; self.claimed = False

class Program:
    """All function definitions of the library, merged over translation units."""
    def __init__(self, asts):
        self.funcs = {}; self.byid = {}; self.records = {}; self.enums = {}; self.globals = {}
        for name, txt in asts:
            d = json.loads(normalise(txt))
            pre = name + '#'
            self._requalify(d, pre)
            for f in d['functions']:
                key = f['f'] + '(' + ', '.join(f['sig']) + ')'
                f['key'] = key
                self.byid[f['id']] = f
                if f['f'] in ('',): continue
                if key in self.funcs and self.funcs[key].get('internal') and f.get('internal') and self.funcs[key]['file'] != f['file']:
                    key = key + '@' + name; f['key'] = key
                self.funcs.setdefault(key, f)
            for r in d['records']: self.records.setdefault(r['n'], r)
            for e in d['enums']: self.enums.setdefault(e['n'], {v['n']: int(v['v']) for v in e['values']})
            for g in d['globals']: self.globals.setdefault(g['q'], g)
        self.byname = {}
        for k, f in self.funcs.items(): self.byname.setdefault(f['f'], []).append(f)
    def _requalify(self, n, pre):
        st = [n]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                for kk in ('id', 'def', 'decl'):
                    if isinstance(x.get(kk), int): x[kk] = pre + str(x[kk])
                st.extend(x.values())
            elif isinstance(x, list): st.extend(x)
    def never_written(self, q):
        """a non-const global whose every use is a read (checked over the whole program)"""
        if not hasattr(self, '_nw'): self._nw = {}
        if q in self._nw: return self._nw[q]
        ok = True; st = [(f.get('body'), None) for f in self.byid.values()] + [(f.get('inits'), None) for f in self.byid.values()]
        while st and ok:
            n, par = st.pop()
            if isinstance(n, dict):
                if n.get('k') == 'DeclRefExpr' and n.get('q') == q:
                    ok = par is not None and par.get('k') == 'ImplicitCastExpr' and (par.get('ck') == 'LValueToRValue' or par.get('t', '').startswith('const'))
                st += [(v, n if 'k' in n else par) for v in n.values()]
            elif isinstance(n, list): st += [(v, par) for v in n]
        self._nw[q] = ok; return ok
    def resolve(self, e):
        """definition of the callee of a call expression, or None"""
        if 'def' in e and e['def'] in self.byid:
            f = self.byid[e['def']]
            return self.funcs.get(f['key'], f)
        if 'f' in e:
            return self.funcs.get(e['f'] + '(' + ', '.join(e['sig']) + ')')
        return None

def normalise(txt):
    for a, b in ((', std::char_traits<char>, std::allocator<char>>', '>'), ('std::basic_string<char>', 'std::string'),
                 ('std::basic_stringstream<char>', 'std::stringstream'), ('std::basic_istream<char, std::char_traits<char>>', 'std::istream'),
                 ('std::basic_ifstream<char, std::char_traits<char>>', 'std::ifstream'),
                 ('std::basic_ostringstream<char>', 'std::ostringstream')):
        txt = txt.replace(a, b)
    prev = None
    while prev != txt:
        prev = txt
        txt = re.sub(r'std::(list|vector)<((?:[^<>]|<[^<>]*>)+), std::allocator<\2>>', r'std::\1<\2>', txt)
        txt = re.sub(r'std::map<(std::string), ((?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)+?), std::less<\1>, std::allocator<std::pair<const \1, \2>>>', r'std::map<\1, \2>', txt)
    return txt
