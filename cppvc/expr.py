from engine import *
from execu import *
import execu, engine, zlib

BYTES = ('char', 'signed char', 'unsigned char')
class ExecE(Exec):
    # ------------------------------------------------------------ lvalues
    def lval(self, e, st):
        k = e['k']
        self.line = e.get('l', self.line)
        if k == 'DeclRefExpr':
            if e.get('global') and not self.bound(e['id']): return self.global_ref(e, st)
            a = self.act
            while a is not None:
                if e['id'] in a.env:
                    b = a.env[e['id']]
                    return b
                a = a.lexical if hasattr(a, 'lexical') else None
            raise Unsupported('unbound %s' % e['n'])
        if k == 'MemberExpr':
            if 'f' in e: raise NotLvalue()
            b = e['c'][0]
            if e['arrow']: base = self.deref(self.eval(b, st), st)
            else: base = self.lval_or_temp(b, st)
            v = self.load(st, base) if False else None
            return base.sub(e['n'])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr'):
            if e['ck'] in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived'): return self.lval(e['c'][0], st) if e['c'][0].get('lv') else self.raise_nl()
            raise NotLvalue()
        if k == 'UnaryOperator':
            if e['op'] == '*': return self.element(self.deref(self.eval(e['c'][0], st), st), e, st)
            if e['op'] in ('++', '--') and not e['post']:
                self.eval_incdec(e, st); return self.lval(e['c'][0], st)
            raise NotLvalue()
        if k == 'ArraySubscriptExpr':
            p = self.eval(e['c'][0], st); i = self.eval(e['c'][1], st)
            return self.element(self.index_ptr(p, i, st), e, st)
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            if e['op'].endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
                self.eval_assign(e, st); return self.lval(e['c'][0], st)
            raise NotLvalue()
        if k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr'):
            r = self.eval_call(e, st)
            if r.k == 'lref': return r.x
            root = self.fresh_name('tmp'); st.store[root] = r
            return Ref(root)
        if k == 'StringLiteral': 
            root = self.fresh_name('lit'); st.store[root] = lit_bytes(e['v'] + [0]); return Ref(root)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'ConditionalOperator'):
            v = self.eval(e, st); root = self.fresh_name('tmp'); st.store[root] = v; return Ref(root)
        raise Unsupported('lvalue %s' % k)
    def bound(self, vid):
        a = self.act
        while a is not None:
            if vid in a.env: return True
            a = getattr(a, 'lexical', None)
        return False
    def raise_nl(self): raise NotLvalue()
    def global_ref(self, e, st):
        if e['q'] == 'std::placeholders': pass
        g = self.prog.globals.get(e['q'])
        root = '@g:' + e['q']
        if root in st.store: return Ref(root)
        if g and 'init' in g and (g['t'].startswith('const') or self.prog.never_written(e['q'])):
            st.store[root] = self.eval(g['init'], st); return Ref(root)
        if g and not g['t'].rstrip().endswith('&'):      # whatever earlier calls left there
            if g.get('tls'):
                root = '@t:' + e['q']
                if root in st.store: return Ref(root)
            st.store[root] = self.fresh(st, self.mtype(g['t']), g['n'], g['t']); self.rtype[root] = g['t']; return Ref(root)
        raise Unsupported('mutable global %s' % e['q'])
    # memory is read and written with the static type of the access: bytes of either signedness may be reinterpreted, nothing else
    def element(self, r, e, st):
        if r.path and isinstance(r.path[-1], tuple) and r.path[-1][0] == 'idx':
            c = self.load(st, Ref(r.root, r.path[:-1])); t = strip(e['t'])
            byte = vtype(c.k) == 'Seq<u8>'
            if byte != (t in BYTES) or (not byte and isinstance(c.k, tuple) and c.k[0] == 'arr' and c.k[1] != t): raise Unsupported('access to %s elements as %s' % (c.k, t))
        elif e['k'] == 'UnaryOperator' and not r.path and r.root in self.rtype:
            t, u = strip(e['t']), strip(self.rtype[r.root])
            if t != u and t in INT_RANGES and u in INT_RANGES: raise Unsupported('access to %s as %s' % (u, t))
        return r
    def loadt(self, st, r, t):
        v = self.load(st, r)
        if v.k == 'int' and strip(t) in BYTES and r.path and isinstance(r.path[-1], tuple) and r.path[-1][0] == 'idx': v = self.conv_int(st, v, t)
        return v
    def deref(self, p, st):
        if p.k == 'lref': p = self.load(st, p.x)
        if p.k == 'ptr':
            t = p.x['target']
            if t == 'obj': return p.x['ref']
            if t == 'buf': return self.index_ptr(p, mkint(0), st)
            if t == 'sp':
                self.oblige(st, '(%s is Some)' % atom(self.pack(self.load(st, p.x['ref']))), 'dereferenced pointer is not null')
                return p.x['ref'].sub(('some',))
            if t == 'null': raise Unsupported('dereference of null')
            if t == 'cstr': return self.index_ptr(p, mkint(0), st)
        raise Unsupported('dereference of %s' % (p.k,))
    def index_ptr(self, p, i, st):
        if p.k != 'ptr': raise Unsupported('index of %s' % (p.k,))
        if p.x['target'] == 'buf':
            off = self.ptr_add(p.x['off'], i)
            v = self.load(st, p.x['ref'])
            if v.k == 'str': raise Unsupported('raw write into string')
            self.oblige(st, '(0 <= %s < %s.len())' % (off.t, atom(v.t)), 'array index in bounds')
            return p.x['ref'].sub(('idx', off.t))
        if p.x['target'] == 'cstr':
            off = self.ptr_add(p.x['off'], i); s = p.x['s']
            self.oblige(st, '(0 <= %s <= %s.len())' % (off.t, atom(s.t)), 'character pointer in bounds')
            root = self.fresh_name('cs'); st.store[root] = V('str', '%s.push(0u8)' % atom(s.t))
            return Ref(root, (('idx', off.t),))
        raise Unsupported('index of pointer to %s' % p.x['target'])
    def ptr_add(self, a, b):
        if a.c is not None and b.c is not None: return mkint(a.c + b.c)
        if a.c == 0: return b
        if b.c == 0: return a
        return V('int', '(%s + %s)' % (a.t, b.t))

    # ------------------------------------------------------------ expressions
    def eval_cond(self, e, st):
        return self.truth(st, self.eval(e, st))
    def eval_discard(self, e, st): self.eval(e, st, discard=True)
    def eval(self, e, st, discard=False):
        self.line = e.get('l', self.line)
        k = e['k']
        if 'cv' in e and not (k in ('CallExpr',)) :
            c = int(e['cv'])
            return mkbool(c != 0) if e['t'] in ('bool', 'const bool') else mkint(c)
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression %s' % k)
        return m(e, st)
    def e_Evaluated(self, e, st): return e['val']
    def once(self, args, st):
        """the arguments, evaluated now"""
        return [dict(k='Evaluated', t=a['t'], l=a.get('l', self.line), val=self.eval(a, st), node=a) for a in args]
    def rvalue(self, v, st):
        if v.k == 'lref': return self.load(st, v.x)
        return v
    def e_IntegerLiteral(self, e, st): return mkint(int(e['v']))
    e_CharacterLiteral = e_IntegerLiteral
    def e_CXXBoolLiteralExpr(self, e, st): return mkbool(e['v'])
    def e_CXXNullPtrLiteralExpr(self, e, st): return V('ptr', None, x={'target': 'null'})
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr
    def e_StringLiteral(self, e, st): return lit_bytes(e['v'])
    def e_CXXThisExpr(self, e, st):
        a = self.act
        while a.this is None and getattr(a, 'lexical', None): a = a.lexical
        return V('ptr', None, x={'target': 'obj', 'ref': a.this})
    def e_DeclRefExpr(self, e, st):
        if e.get('dk') in ('Function', 'CXXMethod'): return V('fn', None, x=e)
        return self.load(st, self.lval(e, st))
    def e_MemberExpr(self, e, st): return self.load(st, self.lval(e, st))
    def e_ArraySubscriptExpr(self, e, st): return self.load(st, self.lval(e, st))
    def e_InitListExpr(self, e, st):
        t = strip(e['t'])
        if not e.get('c') and t == 'std::string': return lit_bytes([])
        mt = self.mtype(t)
        if isinstance(mt, tuple) and mt[0] == 'arr' and t.startswith('char'): 
            return V(mt, 'seq![%s]' % ', '.join(self.to_u8(self.eval(c, st)) for c in e['c']))
        if isinstance(mt, tuple) and mt[0] == 'arr' and mt[1] in INT_RANGES and all('cv' in c or c['k'] == 'ImplicitValueInitExpr' for c in e.get('c', [])):
            vals = [int(c.get('cv', 0)) for c in e.get('c', [])]; vals += [0] * (mt[2] - len(vals))
            if mt[1] == 'unsigned char': return V(mt, lit_bytes([v % 256 for v in vals]).t)
            n = 'ilit_%08x' % (zlib.crc32(repr(vals).encode()) & 0xffffffff); engine.ILITS[n] = vals
            return V(mt, n + '()')
        if len(e.get('c', [])) == 1: return self.eval(e['c'][0], st)
        raise Unsupported('init list')
    def e_CXXScalarValueInitExpr(self, e, st): return mkbool(False) if e['t'] == 'bool' else mkint(0)
    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr
    def e_cast(self, e, st):
        ck = e['ck']; s = e['c'][0]
        if ck == 'LValueToRValue': return self.rvalue(self.loadt(st, self.lval(s, st), e['t']), st)
        if ck == 'BitCast':
            v = self.rvalue(self.eval(s, st), st); pt = strip(strip(e['t']).rstrip('*'))
            if v.k == 'ptr' and v.x['target'] in ('buf', 'cstr') and pt not in BYTES and pt not in ('void', 'HEADER'): raise Unsupported('cast of a byte pointer to %s' % e['t'])
            return v
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'BitCast', 'FunctionToPointerDecay', 'BaseToDerived'):
            return self.rvalue(self.eval(s, st), st)
        if ck == 'IntegralCast': return self.conv_int(st, self.eval(s, st), e['t'])
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'): return self.truth(st, self.eval(s, st))
        if ck == 'ArrayToPointerDecay':
            if s['k'] == 'StringLiteral': return V('ptr', None, x={'target': 'cstr', 's': lit_bytes(s['v']), 'off': mkint(0)})
            if s['k'] == 'PredefinedExpr': return V('ptr', None, x={'target': 'cstr', 's': lit_bytes([]), 'off': mkint(0)})
            r = self.lval(s, st)
            v = self.load(st, r)
            return V('ptr', None, x={'target': 'buf', 'ref': r, 'off': mkint(0)})
        if ck in ('NullToPointer',) and strip(e['t']) in HANDLES: return mkint(0)
        if ck in ('NullToPointer',): return V('ptr', None, x={'target': 'null'})
        if ck == 'ToVoid': self.eval(s, st); return V('unit', '()')
        raise Unsupported('cast %s' % ck)
    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_cast
    def e_UnaryOperator(self, e, st):
        op = e['op']
        if op == '!': return b_not(self.eval_cond(e['c'][0], st))
        if op == '*': return self.load(st, self.lval(e, st))
        if op == '&':
            s = e['c'][0]
            if s['k'] == 'DeclRefExpr' and s.get('dk') in ('Function', 'CXXMethod'): return V('fn', None, x=s)
            r = self.lval(s, st)
            if r.path and isinstance(r.path[-1], tuple) and r.path[-1][0] == 'idx':
                return V('ptr', None, x={'target': 'buf', 'ref': Ref(r.root, r.path[:-1]), 'off': V('int', r.path[-1][1])})
            return V('ptr', None, x={'target': 'obj', 'ref': r})
        if op in ('++', '--'): return self.eval_incdec(e, st)
        if op == '-':
            v = self.eval(e['c'][0], st); return self.arith(st, '-', mkint(0), v, e['t'])
        if op == '+': return self.eval(e['c'][0], st)
        if op == '~':
            v = self.eval(e['c'][0], st)
            return self.arith(st, '-', mkint(-1), v, e['t'])
        raise Unsupported('unary %s' % op)
    def eval_incdec(self, e, st):
        r = self.lval(e['c'][0], st); v = self.loadt(st, r, e['t'])
        op = e['op'][0]
        if v.k == 'ptr':
            d = dict(v.x)
            if 'off' not in d: raise Unsupported('pointer arithmetic')
            d['off'] = self.ptr_add(d['off'], mkint(1 if op == '+' else -1)); n = V('ptr', None, x=d)
        else:
            ct = e['t']
            n = self.arith(st, op, v, mkint(1), 'int' if self.rng(ct)[1] < 2**31 else ct)
            n = self.conv_int(st, n, ct)
        self.save(st, r, n)
        return v if e['post'] else self.loadt(st, r, e['t'])
    def e_BinaryOperator(self, e, st):
        op = e['op']
        if op == ',': self.eval(e['c'][0], st); return self.eval(e['c'][1], st)
        if op == '=': return self.eval_assign(e, st)
        if op in ('&&', '||'):
            a = self.eval_cond(e['c'][0], st)
            if a.c is not None:
                if (op == '&&') == a.c: return self.eval_cond(e['c'][1], st)
                return a
            s1 = st.fork(); h0 = s1.hist
            b = self.eval_cond(e['c'][1], s1)
            if s1.hist is h0 and self.same_store(s1.store, st.store):
                return self.b_and(a, b) if op == '&&' else self.b_or(a, b)
            # side effects, obligations or facts in the second operand
            na = self.split(st, a) if op == '&&' else tuple(reversed(self.split(st, a)))
            s1, s2 = na
            b = self.eval_cond(e['c'][1], s1)
            m, v = self.merge([s1, s2], [b, mkbool(op == '||')])
            st.become(m); return v
        a = self.eval(e['c'][0], st); b = self.eval(e['c'][1], st)
        if op in ('==', '!=', '<', '>', '<=', '>='): return self.compare(st, op, a, b)
        if a.k == 'ptr' or b.k == 'ptr':
            if op == '+' and b.k == 'ptr': a, b = b, a
            if op in '+-' and a.k == 'ptr' and b.k == 'int' and 'off' in a.x:
                d = dict(a.x); d['off'] = self.ptr_add(d['off'], b) if op == '+' else mkint(d['off'].c - b.c) if d['off'].c is not None and b.c is not None else V('int', '(%s - %s)' % (d['off'].t, b.t)); return V('ptr', None, x=d)
            if op == '-' and a.k == 'ptr' and b.k == 'ptr' and a.x.get('ref') == b.x.get('ref') and a.x['target'] == 'buf':
                return V('int', '(%s - %s)' % (a.x['off'].t, b.x['off'].t))
            raise Unsupported('pointer arithmetic')
        return self.arith(st, op, a, b, e['t'])
    def same_store(self, a, b):
        return len(a) == len(b) and all(k in b and b[k] is a[k] for k in a)
    def eval_assign(self, e, st):
        op = e['op']
        if op == '=':
            v = self.rvalue(self.eval(e['c'][1], st), st)
            r = self.lval(e['c'][0], st)
            self.save(st, r, v); return self.loadt(st, r, e['t'])
        o = op[:-1]
        b = self.eval(e['c'][1], st)
        r = self.lval(e['c'][0], st); a = self.loadt(st, r, e['t'])
        if a.k == 'ptr':
            d = dict(a.x)
            if o not in '+-' or 'off' not in d: raise Unsupported('pointer arithmetic')
            if o == '-': b = mkint(-b.c) if b.c is not None else V('int', '(-%s)' % b.t)
            d['off'] = self.ptr_add(d['off'], b); self.save(st, r, V('ptr', None, x=d)); return self.load(st, r)
        a2 = self.conv_int(st, a, e['clt'])
        n = self.arith(st, o, a2, self.conv_int(st, b, e['clt']) if o not in ('<<', '>>') else b, e['ct'])
        self.save(st, r, self.conv_int(st, n, e['t'])); return self.loadt(st, r, e['t'])
    e_CompoundAssignOperator = eval_assign
    def e_ConditionalOperator(self, e, st):
        c = self.eval_cond(e['c'][0], st)
        a, b = self.split(st, c)
        if b is None: st.become(a); return self.rvalue(self.eval(e['c'][1], st), st)
        if a is None: st.become(b); return self.rvalue(self.eval(e['c'][2], st), st)
        va = self.rvalue(self.eval(e['c'][1], a), a); vb = self.rvalue(self.eval(e['c'][2], b), b)
        m, v = self.merge([a, b], [va, vb]); st.become(m); return v
    def e_UnaryExprOrTypeTraitExpr(self, e, st): raise Unsupported('sizeof')
    def e_CXXThrowExpr(self, e, st):
        if 'c' not in e: raise Unsupported('rethrow')
        x = self.eval(e['c'][0], st)
        d = st.fork()
        exc = x.x if x.k == 'exc' else None
        if exc is None: raise Unsupported('throw of %s' % (x.k,))
        exc = dict(exc); exc['line'] = e['l']
        self.raise_(d, exc)
        st.hist = 'dead'
        return V('unit', '()')
    def e_LambdaExpr(self, e, st):
        caps = {}
        for c in e['captures']:
            if c['this']: continue
            a = self.act; b = None
            while a is not None:
                if c['id'] in a.env: b = a.env[c['id']]; break
                a = getattr(a, 'lexical', None)
            if b is None: raise Unsupported('capture')
            if not c['byref']:
                root = self.fresh_name('cap_' + c['n']); st.store[root] = self.load(st, b); b = Ref(root)
            caps[c['id']] = (c['n'], b)
        return V('lam', None, x={'node': e, 'caps': caps, 'act': self.act})
    def e_CXXNewExpr(self, e, st):
        return self.new_expr(e, st)
    def e_CXXDeleteExpr(self, e, st):
        self.eval(e['c'][0], st); return V('unit', '()')
    def e_CXXStdInitializerListExpr(self, e, st): return self.eval(e['c'][0], st)

    # ------------------------------------------------------------ construction
    def e_CXXConstructExpr(self, e, st):
        t = strip(e['t'])
        args = e.get('c', [])
        if e.get('elidable') and len(args) == 1: return self.rvalue(self.eval(args[0], st), st)
        if e.get('copy') or e.get('move'):
            v = self.rvalue(self.eval(args[0], st), st)
            if e.get('copy') and t.startswith('std::shared_ptr<') and args[0].get('lv'):
                self.mark_shared(args[0], st); v = V(v.k, v.t, v.c, v.lo, v.hi, v.prov, {'copied': True})
            return v
        if self.is_exception(t):
            cls = mkint(0); sig = e['sig']
            for a in args: 
                v = self.eval(a, st)
            ar = None
            for a, s in zip(args, sig):
                if strip(s) == 'DKIM::AR_CLASS': ar = self.eval(a, st)
            f = self.prog.resolve(e)
            return V('exc', None, x={'cls': t, 'ar': self.exc_class(t, f, e, st, ar)})
        return self.construct(e, t, args, st)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def is_exception(self, t): return 'std::exception' in self.bases(t) or t in ('std::bad_alloc', 'std::runtime_error')
    def exc_class(self, t, f, e, st, ar):
        """value of ar_class the exception constructor stores"""
        if f is None or ar is None: return ar
        for i in f.get('inits', []):
            if i.get('m') == 'ar_class':
                x = i['e']
                while x['k'] in ('ImplicitCastExpr',): x = x['c'][0]
                if x['k'] == 'DeclRefExpr': return ar
                if 'cv' in x: return mkint(int(x['cv']))
        return ar

    # ------------------------------------------------------------ user calls
    def e_CallExpr(self, e, st): return self.rvalue(self.eval_call(e, st), st)
    e_CXXMemberCallExpr = e_CallExpr
    e_CXXOperatorCallExpr = e_CallExpr
    def eval_call(self, e, st):
        f = self.prog.resolve(e)
        if f is not None and f.get('body') is not None:
            k = e['k']
            this = None
            args = e.get('c', [])
            if k == 'CXXMemberCallExpr':
                if e.get('arrow'): this = self.deref(self.eval(e['obj'], st), st)
                else: this = self.lval_or_temp(e['obj'], st)
            elif k == 'CXXOperatorCallExpr' and e.get('method'):
                this = self.lval_or_temp(args[0], st); args = args[1:]
            return self.call_user(f, this, args, st, e)
        return self.std_call(e, st)
    def bind_args(self, f, args, st):
        out = []
        for p, a in zip(f['params'], args):
            if p['t'].rstrip().endswith('&'):
                out.append(self.lval_or_temp(a, st, p['n'] or 'arg'))
            else:
                v = self.rvalue(self.eval(a, st), st); out.append(v)
        return out
    def call_user(self, f, this, args, st, e=None):
        if f['f'] == 'DKIM::Util::StringFormat': return self.string_format(args, st)
        avals = self.bind_args(f, args, st)
        c = self.contract_of(f)
        if c is not None and not c.get('inline') and not c.get('inline_calls'): return self.call_contract(f, c, this, avals, st)
        return self.call_inline(f, this, avals, st)
    def contract_of(self, f):
        return self.ctx.contracts.get(f.get('key')) or self.ctx.contracts.get(f['f'])
    def contract_key(self, f): return f['key'] if f.get('key') in self.ctx.contracts else f['f']
    def string_format(self, args, st):
        """StringFormat is under contract (it returns what the C library's formatting gives); here that text is spelled out for a literal format and these arguments"""
        self.ctx.used_contracts['DKIM::Util::StringFormat'] = True; self.ctx.std_used.add('printf-style formatting')
        vals = [self.rvalue(self.eval(a, st), st) for a in args]
        fmt = vals[0]
        if fmt.k == 'ptr' and fmt.x['target'] == 'cstr' and fmt.x['s'].c is not None:
            f = fmt.x['s'].c.decode('latin1'); parts = re.split(r'(%%|%[a-z]+)', f); i = 1; out = []; ok = True
            for p in parts:
                if p == '%%': out.append(lit_bytes(b'%').t)
                elif p.startswith('%'):
                    if i >= len(vals): ok = False; break
                    v = vals[i]; i += 1
                    if p in ('%lu', '%zu', '%ld', '%d') and v.k == 'int': out.append('dec_str(%s)' % (self.conv_int(st, v, 'unsigned long').t if p in ('%lu', '%zu') else v.t))
                    elif p == '%s' and v.k == 'ptr' and v.x['target'] == 'cstr': out.append(self.as_str(v, st).t)
                    else: ok = False; break
                elif p: out.append(lit_bytes(p.encode('latin1')).t)
            if ok and i == len(vals): return V('str', '(%s)' % ' + '.join(out) if len(out) > 1 else (out or [lit_bytes([]).t])[0])
        return self.fresh(st, 'str', 'formatted')
    def call_inline(self, f, this, avals, st):
        if any(x is f for x in self.callstack): raise Unsupported('recursion of %s without contract' % f['f'])
        if len(self.callstack) > 12: raise Unsupported('inlining too deep')
        self.ctx.inlined.add(f['f'])
        act = Activation(f, this); saved = self.act; savedline = self.line
        self.act = act; self.callstack.append(f)
        try:
            for p, a in zip(f['params'], avals): self.bind_param(act, p, a, st)
            r = self.run_body(f, act, st)
        finally:
            self.act = saved; self.callstack.pop(); self.line = savedline
        return r
    def bind_param(self, act, p, a, st):
        act.names.setdefault(p['n'], []).append(p['id'])
        if isinstance(a, Ref): act.env[p['id']] = a
        else:
            root = '%s#%s.%d' % (p['n'], p['id'], act.id)
            st.store[root] = a; act.env[p['id']] = Ref(root)
            self.rtype[root] = p['t']
    def run_body(self, f, act, st):
        """inline execution; merges return states into st"""
        saved = self.throws; self.throws = []
        outs = self.exec_stmt(f['body'], st.fork())
        self.throws = saved
        rets = []; vals = []
        for o in outs:
            if o[0] == 'throw': self.throws.append((o[1], o[2]))
            elif o[0] in ('return', 'next'):
                rets.append(o[1]); vals.append(o[2])
            else: raise Unsupported('stray %s' % o[0])
        if not rets:
            st.hist = 'dead'; return V('unit', '()')
        if len(rets) > 1 and any(v is not None and v.k == 'lref' for v in vals):
            if all(v is not None and v.k == 'lref' and v.x == vals[0].x for v in vals):
                m, _ = self.merge(rets); st.become(m); return vals[0]
            vals = [self.rvalue(v, s) for v, s in zip(vals, rets)]
        if any(v is None for v in vals): vals = [None] * len(vals)
        m, v = self.merge(rets, vals)
        st.become(m)
        if v is None: return V('unit', '()')
        if v.k not in ('lref',) and not f['ret'].rstrip().endswith('&'): 
            pass
        return v
    def call_lambda(self, lam, args, st):
        n = lam.x['node']
        f = {'f': '<lambda>', 'params': n['params'], 'ret': n['ret'], 'body': n['body'], 'l': n['l']}
        act = Activation(f, None); act.lexical = lam.x['act']
        for cid, (nm, b) in lam.x['caps'].items():
            act.env[cid] = b; act.names.setdefault(nm, []).append(cid)
        avals = self.bind_args(f, args, st)
        saved = self.act; self.act = act; self.callstack.append(f)
        try:
            for p, a in zip(f['params'], avals): self.bind_param(act, p, a, st)
            return self.run_body(f, act, st)
        finally:
            self.act = saved; self.callstack.pop()

    # ------------------------------------------------------------ templates
    def subst(self, text, look):
        def rep(m):
            name = m.group(1); fields = m.group(2) or ''; tag = m.group(3)
            return look(name, [x for x in fields.split('.') if x], tag)
        return re.sub(r'\$([A-Za-z_]\w*)((?:\.[A-Za-z_]\w*(?![\w(]))*)(?:@(\w+))?', rep, text)
    def term_of(self, st, ref, fields):
        """Verus term of location ref followed by a field path (modelled fields first, then raw projection)"""
        v = self.load(st, ref)
        while fields and isinstance(v.k, tuple) and v.k[0] == 'rec':
            v = self.get_path(v, (fields[0],), st); fields = fields[1:]
        t = self.pack(v)
        if fields: t = atom(t) + ''.join('.' + f for f in fields)
        return t if re.fullmatch(r'[\w.]+', t) else '(%s)' % t
    def lookup_var(self, act, name, st):
        if name == 'this':
            a = act
            while a is not None and a.this is None: a = getattr(a, 'lexical', None)
            return a.this
        a = act
        while a is not None:
            if name in a.names:
                for vid in reversed(a.names[name]):
                    r = a.env.get(vid)
                    if r is not None and (r.root in st.store): return r
            a = getattr(a, 'lexical', None)
        raise Unsupported('annotation variable %s not found' % name)
    def call_contract(self, f, c, this, avals, st):
        self.ctx.used_contracts[self.contract_key(f)] = f
        nm = f['f'].split('::')[-1]
        pre = st.fork()
        env = {}
        for p, a in zip(f['params'], avals):
            if isinstance(a, Ref): env[p['n']] = a
            else:
                root = self.fresh_name('arg_' + p['n']); st.store[root] = a; pre.store[root] = a; env[p['n']] = Ref(root)
        if this is not None: env['this'] = this
        # contract parameter names are positional: 'params' in the contract
        for i, n in enumerate(c.get('params', [])):
            if i < len(f['params']): env[n] = env[f['params'][i]['n']]
        self.contract_extra(f, c, avals, st, pre, env)
        res = {}
        def look(state):
            def g(name, fields, tag):
                if name == 'result': 
                    t = res['t']; return t + ''.join('.' + x for x in fields)
                if name not in env: raise Unsupported('contract variable %s of %s' % (name, f['f']))
                return self.term_of(pre if tag == '0' else state, env[name], fields)
            return g
        for i, r in enumerate(c.get('requires', [])):
            self.oblige(st, self.subst(r, look(st)), 'precondition %d of %s' % (i + 1, nm))
        if c.get('dec') is not None and self.ctx.unit_key == self.contract_key(f):
            m = self.subst(c['dec'], look(st))
            self.oblige(st, '(0 <= %s < %s)' % (m, self.unit_measure), 'recursion of %s terminates' % nm)
        # modified locations
        mods = []
        for p, a in zip(f['params'], avals):
            t = p['t'].rstrip()
            if t.endswith('&') and not t.startswith('const') and not t.endswith('&&'): mods.append(env[p['n']])
        if this is not None and not f.get('const') and not f.get('static'):
            if 'modifies' in c:
                for m in c['modifies']:
                    if m.startswith('this.'): mods.append(this.sub(*m.split('.')[1:]))
                    elif m == 'this': mods.append(this)
            else: mods.append(this)
        thr = c.get('throws')
        if c.get('throws_by'):
            for cls, cond in c['throws_by'].items():
                d, ok = self.split(st, V('bool', self.subst(cond, look(pre))))
                for m in mods: self.havoc(d, m, 'x')
                for t in c.get('throw_ensures', []): d.hyp(self.subst(untag(t)[1], look(d)))
                self.raise_(d, {'cls': cls, 'ar': None, 'line': self.line, 'via': nm}); st.become(ok)
        # exceptional exit
        if thr is not None:
            d = st.fork()
            if thr == '?': pass
            else:
                cond = V('bool', self.subst(thr, look(pre)))
                d, ok = self.split(st, cond)
                st.become(ok)
            for m in mods:
                if c.get('strong_throw'): break
                self.havoc(d, m, 'x')
            for t in c.get('throw_ensures', []): d.hyp(self.subst(untag(t)[1], look(d)))
            ar = None
            if c.get('throw_class') is not None:
                ar = V('int', self.subst(str(c['throw_class']), look(pre)))
                if re.fullmatch(r'\d+', ar.t): ar = mkint(int(ar.t))
            self.raise_(d, {'cls': c.get('exc', 'DKIM::PermanentError'), 'ar': ar, 'line': self.line, 'via': nm})
            if thr == '?':
                b = self.fresh_name('thrown'); 
                d0 = self.throws.pop(); dd = st.fork(); dd.add('fresh', b, 'bool'); dd.hyp(b, True)
                for m in mods: self.havoc(dd, m, 'x')
                self.throws.append((dd, d0[1]))
                st.add('fresh', b, 'bool'); st.hyp('!' + b, True)
        for m in mods:
            self.havoc(st, m, (m.path[-1] if m.path and isinstance(m.path[-1], str) else m.root))
        for loc, t in c.get('post', {}).items():
            parts = loc.split('.'); r = env[parts[0]].sub(*parts[1:])
            old = self.load(st, r)
            self.save(st, r, self.from_term(old.k, self.subst(t, look(pre))))
        rt = f['ret']
        val = V('unit', '()')
        if strip(rt) != 'void':
            mt = self.mtype(rt)
            if c.get('result_loc') == 'this': return V('lref', None, x=this)
            if c.get('result_loc'):
                if c.get('ensures') or 'result' in c: raise Unsupported('contract of %s' % nm)
                return V('lref', None, x=this.sub(*c['result_loc'].split('.')[1:]))
            if 'result' in c:
                val = self.let(st, self.typed(self.from_term(mt, self.subst(c['result'], look(st)), rt), rt), nm)
            else: val = self.fresh(st, mt, nm, rt)
            res['t'] = self.pack(val)
        for t in c.get('ensures', []): st.hyp(self.subst(untag(t)[1], look(st)))
        for t in c.get('call_hints', []): st.add('hint', self.subst(t, look(st)), None)
        self.contract_done(f, c, avals, st, env)
        return val
    def contract_extra(self, f, c, avals, st, pre, env): pass
    def contract_done(self, f, c, avals, st, env): pass
    def typed(self, v, ct):
        return v
    def havoc(self, st, ref, base):
        v = self.load(st, ref) if ref.root in st.store and st.store[ref.root] is not None else None
        if v is None: raise Unsupported('havoc of uninitialised %s' % ref.root)
        self.note_static(st, ref.root)
        st.store[ref.root] = self.set_path(st.store[ref.root], ref.path, self.havoc_val(st, v, base, self.ctype_of(ref, st)), st)
    def havoc_val(self, st, v, base, ct):
        if v.k == 'iter':
            nm = self.fresh_name(base); st.add('fresh', nm, 'int')
            d = dict(v.x); d['idx'] = V('int', nm); d['check'] = True
            n = self.load(st, d['cont']); st.hyp('0 <= %s <= %s.len()' % (nm, atom(self.pack(n))))
            return V('iter', None, x=d)
        if v.k == 'ptr':
            if 'off' in v.x:
                d = dict(v.x); d['off'] = self.fresh(st, 'int', base); return V('ptr', None, x=d)
            raise Unsupported('pointer modified in a loop')
        if isinstance(v.k, tuple) and v.k[0] == 'rec' and v.k[1] in self.prog.records:
            r = self.unpack(v); fs = {}
            for n, fv in r.f.items():
                if fv is None: fs[n] = None; continue
                fs[n] = self.havoc_val(st, fv, n, self.field_type(r.name, n))
            return V(v.k, None, x=Rec(r.name, None, fs))
        return self.fresh(st, v.k, base, ct)
    def ctype_of(self, ref, st):
        ct = self.rtype.get(ref.root)
        if not ref.path: return ct
        v = st.store[ref.root]
        for i, p in enumerate(ref.path):
            if isinstance(p, str):
                if isinstance(v.k, tuple) and v.k[0] == 'rec' and v.k[1] in self.prog.records: ct = self.field_type(v.k[1], p)
                else: ct = None
            else: ct = None
            v = self.get_path(v, (p,), st)
        return ct

    # ------------------------------------------------------------ loops
    def loop_ordinals(self, f):
        """pre-order list of loop nodes of f, descending into helpers that get inlined"""
        out = []
        def walk(n, stack):
            if isinstance(n, dict):
                k = n.get('k')
                if k in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt') and not self.auto_skip(n) and not (k == 'DoStmt' and n['cond'].get('cv') == '0'): out.append(id(n))
                if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr'):
                    g = self.prog.resolve(n)
                    if g is not None and g.get('body') is not None and (self.contract_of(g) is None or self.contract_of(g).get('inline_calls') or self.contract_of(g).get('inline')) and g['f'] not in stack:
                        for v in n.get('c', []): walk(v, stack)
                        if 'obj' in n: walk(n['obj'], stack)
                        walk(g['body'], stack + [g['f']]); return
                for kk, v in n.items():
                    if isinstance(v, (dict, list)): walk(v, stack)
            elif isinstance(n, list):
                for v in n: walk(v, stack)
        walk(f['body'], [f['f']])
        return out
    def auto_skip(self, s):
        """`while (!ReadWhiteSpace(...).empty()) ;` : returns the whitespace type constant"""
        b = s.get('body')
        if not (b and (b['k'] == 'NullStmt' or (b['k'] == 'CompoundStmt' and not b.get('c')))): return None
        found = []
        def walk(n):
            if isinstance(n, dict):
                if n.get('f') == 'DKIM::Tokenizer::ReadWhiteSpace' and n.get('k') == 'CallExpr': found.append(n)
                for v in n.values(): walk(v)
            elif isinstance(n, list):
                for v in n: walk(v)
        walk(s.get('cond'))
        if len(found) == 1 and 'cv' in found[0]['c'][1]: return found[0]
        return None
    def exec_loop(self, s, st):
        k = s['k']
        hidden = None
        if k == 'ForStmt' and s.get('init'):
            outs0 = self.exec_stmt(s['init'], st)
            if len(outs0) != 1 or outs0[0][0] != 'next': raise Unsupported('for-init')
            st = outs0[0][1]
        if s.get('var') and k != 'CXXForRangeStmt': raise Unsupported('loop condition variable')
        if k == 'CXXForRangeStmt':
            cont = self.lval_or_temp(s['range'], st, 'range')
            hidden = '_i%d' % next(self.ctx.names)
            snap = self.pack(self.load(st, cont))
            st.store[hidden] = V('iter', None, x={'kind': 'list', 'cont': cont, 'idx': mkint(0), 'snap': snap, 'len': self.let(st, V('int', '%s.len()' % atom(snap)), 'n').t, 'own': self.private_range(s, cont)})
            self.act.env['@' + hidden] = Ref(hidden); self.act.names.setdefault('_i', []).append('@' + hidden)
        auto = self.auto_skip(s)
        if auto is not None:
            ann = self.skip_annotation(auto, st)
        else:
            ords = self.ctx.loop_ids
            once = k == 'DoStmt' and s['cond'].get('cv') == '0'
            if not once and id(s) not in ords: raise Unsupported('loop outside the verified function')
            i = None if once else ords.index(id(s)); anns = self.ctx.loop_anns
            ann = anns[i] if not once and i < len(anns) else None
        # does it ever go back?
        mod = set()
        pre = st
        for _ in range(8):
            self.ctx.dry += 1
            nobl = len(self.throws)
            head = self.loop_head(pre, mod, None, s)
            h0 = dict(head.store)
            exits, backs, outs = self.loop_iter(s, head.fork(), cont if k == 'CXXForRangeStmt' else None, hidden)
            self.ctx.dry -= 1
            if not backs:
                del self.throws[nobl:]
                break
            new = set()
            for b in backs:
                if any(v is not h0.get(r) for r, v in b.store.items() if r.startswith('@shared:')): raise Unsupported('ownership changes in a loop')
                for root in h0:
                    if root in b.store: self.diff(root, (), h0[root], b.store[root], new)
            del self.throws[nobl:]
            if new <= mod: break
            mod |= new
        else: raise Unsupported('loop modification set does not stabilise')
        if not backs:      # body runs at most once
            exits, backs, outs = self.loop_iter(s, st, cont if k == 'CXXForRangeStmt' else None, hidden)
        else:
            if ann is None: raise Unsupported('loop without an invariant in %s line %d' % (self.act.fn['f'], s['l']))
            heads = []; lk = lambda state: (lambda name, fields, tag: self.loop_lookup(name, fields, tag, state, heads[0] if tag == 'H' else pre))
            st = pre.fork()
            for t in ann.get('entry', []): st.add('hint', self.subst(t, lk(st)), None)
            invs = list(ann.get('inv', []))
            auto_ss = [(r, p) for (r, p) in mod if self.get_path(pre.store[r], p, pre).k == 'ss'] if not ann.get('noauto') else []
            self.line = s['l']
            for j, t in enumerate(invs): self.oblige(st, self.subst(t, lk(st)), 'loop invariant %d holds initially' % (j + 1))
            if ann.get('cut'):
                facts = [self.subst(t, lk(st)) for t in ann['cut']]
                for t in facts: self.oblige(st, t, 'known before the loop')
                self.leaf(st, 'cut'); st.add('cut', facts)
            head = self.loop_head(st, mod, None, s); heads.append(head.fork())
            for r, p in auto_ss:
                head.hyp('(%s.d == %s.d)' % (atom(self.pack(self.get_path(head.store[r], p, head))), atom(self.pack(self.get_path(pre.store[r], p, pre)))))
            for t in invs: head.hyp(self.subst(t, lk(head)))
            for t in ann.get('head', []): head.add('hint', self.subst(t, lk(head)), None)
            dec = ann.get('dec') or self.auto_dec(mod, pre)
            if dec is None: raise Unsupported('loop without a termination measure')
            measure = lambda state: dec(state) if callable(dec) else self.subst(dec, lk(state))
            m0 = measure(head)
            exits, backs, outs = self.loop_iter(s, head.fork(), cont if k == 'CXXForRangeStmt' else None, hidden)
            self.line = s['l']
            for b in backs:
                for t in ann.get('back', []): self.soft_hint(b, t, lk(b))
                for r, p in auto_ss:
                    self.oblige(b, '(%s.d == %s.d)' % (atom(self.pack(self.get_path(b.store[r], p, b))), atom(self.pack(self.get_path(pre.store[r], p, pre)))), 'stream contents unchanged by the loop')
                    self.oblige(b, 'ss_wf(%s)' % self.pack(self.get_path(b.store[r], p, b)), 'stream well-formed')
                for r, p in mod:
                    v = self.get_path(b.store[r], p, b) if b.store.get(r) is not None else None
                    if v is not None and v.k == 'iter':
                        n = self.pack(self.load(b, v.x['cont']))
                        self.oblige(b, '(0 <= %s <= %s.len())' % (v.x['idx'].t, atom(n)), 'iterator stays in range')
                    ct = self.ctype_of(Ref(r, p), b) if v is not None and v.k == 'int' else None
                for j, t in enumerate(invs): self.oblige(b, self.subst(t, lk(b)), 'loop invariant %d preserved' % (j + 1))
                self.oblige(b, '(0 <= %s < %s)' % (measure(b), m0), 'loop terminates')
                self.leaf(b, 'back')
            for o in outs:
                if o[0] == 'throw':
                    for t in ann.get('throw', []): self.soft_hint(o[1], t, lk(o[1]))
            for x in exits:
                for t in ann.get('exit', []): self.soft_hint(x, t, lk(x))
        res = list(outs)
        if exits:
            m, _ = self.merge(exits) if len(exits) > 1 else (exits[0], None)
            res.append(('next', m, None))
        return res
    def private_range(self, s, cont):
        """the range is a local container which the loop can reach through the loop variable only (so its elements may change, but not their number)"""
        if cont.path or not s['var']['t'].rstrip().endswith('&') or s['range'].get('k') != 'DeclRefExpr': return False
        if sum(1 for r in self.act.env.values() if isinstance(r, Ref) and r.root == cont.root) != 1: return False
        found = []
        def walk(n):
            if isinstance(n, dict):
                if n.get('k') == 'DeclRefExpr' and n.get('id') == s['range'].get('id'): found.append(n)
                for v in n.values(): walk(v)
            elif isinstance(n, list):
                for v in n: walk(v)
        walk(s['body'])
        return not found
    def soft_hint(self, st, t, look):
        """a proof hint; left out where a variable it names does not exist"""
        try: st.add('hint', self.subst(t, look), None)
        except Unsupported as e:
            if 'annotation variable' not in str(e) and 'uninitialised' not in str(e): raise
    def auto_dec(self, mod, pre):
        ss = [(r, p) for r, p in mod if self.get_path(pre.store[r], p, pre).k == 'ss']
        it = [(r, p) for r, p in mod if self.get_path(pre.store[r], p, pre).k == 'iter']
        if len(it) == 1:
            r, p = it[0]
            def f(state):
                v = self.get_path(state.store[r], p, state)
                return '(%s.len() - %s)' % (atom(self.pack(self.load(state, v.x['cont']))), v.x['idx'].t)
            return f
        if len(ss) == 1:
            r, p = ss[0]
            def f(state):
                t = atom(self.pack(self.get_path(state.store[r], p, state))); return '(%s.d.len() - %s.pos)' % (t, t)
            return f
        return None
    def loop_lookup(self, name, fields, tag, state, pre):
        if tag == '0':
            return self.entry_lookup(name, fields)
        s = pre if tag in ('L', 'H') else state
        return self.term_of(s, self.lookup_var(self.act, name, s), fields)
    def entry_lookup(self, name, fields):
        r = self.entry_env.get(name)
        if r is None: raise Unsupported('no entry value of %s' % name)
        return self.term_of(self.entry, r, fields)
    def diff(self, root, path, a, b, out):
        if a is b or a is None: return
        if b is None: return
        if isinstance(a, (Ref, tuple)): return
        if isinstance(a.k, tuple) and a.k[0] == 'rec' and a.k[1] in self.prog.records:
            ra, rb = self.unpack(a), self.unpack(b)
            for n in ra.f: self.diff(root, path + (n,), ra.f[n], rb.f.get(n), out)
            return
        if a.k == 'iter':
            if b.k != 'iter' or a.x['idx'].t != b.x['idx'].t: out.add((root, path))
            return
        if a.k == 'ptr':
            if a.x.get('target') != b.x.get('target') or a.x.get('ref') != b.x.get('ref'): raise Unsupported('pointer retargeted in a loop')
            if 'off' in a.x and a.x['off'].t != b.x['off'].t: out.add((root, path))
            return
        if a.t is None: 
            if a.x != b.x: raise Unsupported('loop changes %s' % root)
            return
        if a.t != b.t: out.add((root, path))
    def loop_head(self, st, mod, _, s):
        h = st.fork()
        for root, path in sorted(mod, key=str):
            if h.store.get(root) is None: continue
            self.havoc(h, Ref(root, path), path[-1] if path and isinstance(path[-1], str) else root)
        return h
    def loop_iter(self, s, st, cont, hidden):
        """one iteration from the loop head: (exit states, back-edge states, other outcomes)"""
        k = s['k']; exits = []; backs = []; outs = []
        saved = self.throws; self.throws = []
        if k == 'DoStmt': body_state = st
        elif k == 'CXXForRangeStmt':
            it = st.store[hidden]
            seqv = self.load(st, cont)
            if self.pack(seqv) != it.x['snap']:
                if not it.x['own']: raise Unsupported('container modified during range-for')
                st.hyp('(%s.len() == %s)' % (atom(self.pack(seqv)), it.x['len']))     # holds at loop entry; every assignment through the reference replaces one element
            a, b = self.split(st, V('bool', '(%s < %s.len())' % (it.x['idx'].t, atom(self.pack(seqv)))))
            if b is not None: exits.append(b)
            body_state = a
            if a is not None:
                v = s['var']
                self.act.names.setdefault(v['n'], []).append(v['id'])
                er = cont.sub(('idx', it.x['idx'].t))
                if v['t'].rstrip().endswith('&'): self.act.env[v['id']] = er
                else:
                    root = self.root_of(v['id'], v['n']); a.store[root] = self.load(a, er); self.act.env[v['id']] = Ref(root)
        elif s.get('cond') is None: body_state = st
        else:
            c = self.eval_cond(s['cond'], st)
            if st.hist == 'dead': body_state = None
            else:
                body_state, b = self.split(st, c)
                if b is not None: exits.append(b)
        cont_states = []
        if body_state is not None:
            for o in self.exec_stmt(s['body'], body_state):
                if o[0] in ('next', 'continue'): cont_states.append(o[1])
                elif o[0] == 'break': exits.append(o[1])
                else: outs.append(o)
        for x in cont_states:
            if k == 'ForStmt' and s.get('inc'): self.eval_discard(s['inc'], x)
            if k == 'CXXForRangeStmt':
                it = x.store[hidden]; d = dict(it.x); d['idx'] = self.let(x, V('int', '(%s + 1)' % d['idx'].t if d['idx'].c is None else str(d['idx'].c + 1)), '_i')
                x.store[hidden] = V('iter', None, x=d)
            if k == 'DoStmt':
                c = self.eval_cond(s['cond'], x)
                a, b = self.split(x, c)
                if b is not None: exits.append(b)
                if a is not None: backs.append(a)
            else: backs.append(x)
        outs += [('throw', a, b) for a, b in self.throws]
        self.throws = saved
        return exits, backs, outs
