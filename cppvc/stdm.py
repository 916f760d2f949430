"""Model of the standard library operations used by libdkimpp (contracts assumed on the C++ library)."""
from engine import *
from execu import *
from expr import *

def seqcat(a, b):
    return '(%s + %s)' % (a, b)

class ExecS(ExecE):
    def std_call(self, e, st):
        f = e.get('f')
        if f is None:
            return self.call_indirect(e, st)
        self.ctx.std_used.add(f)
        k = e['k']; args = e.get('c', [])
        if k == 'CXXMemberCallExpr':
            cls, op = f.rsplit('::', 1)
            if op.startswith('operator '): cls, op = f.split('::operator ')[0], 'operator ' + f.split('::operator ')[1]
            return self.std_method(e, cls, op, e['obj'], args, st, e.get('arrow'))
        if k == 'CXXOperatorCallExpr':
            if e.get('method'):
                cls = f.rsplit('::operator', 1)[0]
                return self.std_method(e, cls, 'operator' + e['op'], args[0], args[1:], st, False)
            return self.std_operator(e, e['op'], args, st)
        return self.std_function(e, f, args, st)

    def val(self, e, st): return self.rvalue(self.eval(e, st), st)
    def sval(self, e, st):
        """string-like argument as a str value"""
        v = self.val(e, st)
        return self.as_str(v, st)
    def as_str(self, v, st):
        if v.k == 'str': return v
        if v.k == 'ptr' and v.x['target'] == 'cstr':
            s = v.x['s']; off = v.x['off']
            if s.c is not None and off.c is not None:
                b = s.c[off.c:]; b = b.split(b'\0')[0]; return lit_bytes(b)
            if off.c == 0: return V('str', s.t) if v.x.get('plain') else V('str', 'cstr(%s)' % s.t)
            raise Unsupported('C string with offset')
        if v.k == 'int': return V('str', 'seq![%s]' % self.to_u8(v))
        raise Unsupported('string from %s' % (v.k,))
    def size_fact(self, st, v):
        """std::basic_string::max_size() bounds every length"""
        if v.c is None and v.t is not None: 
            key = '@len:' + v.t
            t = '(%s.len() as int)' % atom(v.t)
            st.hyp('(%s.len() < 9223372036854775807)' % atom(v.t))
            return V('int', t, lo=0, hi=2**63-2)
        return mkint(len(v.c)) if v.c is not None else None

    # ------------------------------------------------------------ operators
    def std_operator(self, e, op, args, st):
        if e['f'] in ('std::operator|', 'std::operator&'):
            self.eval(args[0], st); self.eval(args[1], st); return mkint(0)
        if 'iterator' in strip(args[0]['t']) or 'iterator' in e['sig'][0]:
            a = self.val(args[0], st); b = self.val(args[1], st)
            return self.iter_cmp(op, a, b, st, e)
        if 'shared_ptr' in e['sig'][0] or 'unique_ptr' in e['sig'][0] or 'shared_ptr' in e['sig'][-1]:
            a = self.val(args[0], st); b = self.val(args[1], st)
            o = a if (b.k == 'ptr' and b.x['target'] == 'null') else b
            r = b_not(self.truth(st, o))
            return r if op == '==' else b_not(r)
        a = self.sval(args[0], st); b = self.sval(args[1], st)
        if op in ('==', '!='):
            if a.c is not None and b.c is not None: r = mkbool(a.c == b.c)
            elif a.c == b'' or b.c == b'': r = V('bool', '(%s.len() == 0)' % atom((b if a.c == b'' else a).t))
            else: r = V('bool', '(%s =~= %s)' % (a.t, b.t))
            return r if op == '==' else b_not(r)
        if op == '+':
            if a.c is not None and b.c is not None: return lit_bytes(a.c + b.c)
            return V('str', self.append_term(a.t, b))
        raise Unsupported('operator %s on %s' % (op, a.k))
    def append_term(self, t, b):
        if b.c is not None:
            if len(b.c) == 1: return '%s.push(%du8)' % (atom(t), b.c[0])
            if len(b.c) == 0: return t
        m = re.fullmatch(r'seq!\[([^,\]]*(?:\[[^\]]*\])?[^,\]]*)\]', b.t)
        if m and balanced(m.group(1)): return '%s.push(%s)' % (atom(t), m.group(1))
        return '(%s + %s)' % (t, b.t)
    def iter_cmp(self, op, a, b, st, e):
        if a.k != 'iter' or b.k != 'iter': raise Unsupported('iterator comparison')
        if a.x['kind'] == 'find' or b.x['kind'] == 'find':
            f, o = (a, b) if a.x['kind'] == 'find' else (b, a)
            if o.x['kind'] != 'mapend': raise Unsupported('iterator comparison')
            r = b_not(f.x['found'])
        else:
            if a.x['kind'] != b.x['kind'] or a.x['cont'] != b.x['cont']: raise Unsupported('iterators of different containers')
            r = self.compare(st, '==', a.x['idx'], b.x['idx'])
        if op == '==': return r
        if op == '!=': return b_not(r)
        raise Unsupported('iterator %s' % op)

    # ------------------------------------------------------------ constructors
    def construct(self, e, t, args, st):
        f = self.prog.resolve(e)
        if t == 'std::string':
            if not args: return lit_bytes([])
            a = self.val(args[0], st)
            sig = e['sig']
            if a.k == 'iter':
                b = self.val(args[1], st); return self.iter_range_str(a, b, st)
            if len(args) >= 2 and strip(sig[1]) == 'unsigned long':
                n = self.val(args[1], st)
                if a.k == 'int':       # (n, char)
                    c = self.val(args[1], st)
                    return V('str', 'repeat_u8(%s, %s)' % (self.to_u8(c), a.t))
                return self.ptr_range(a, n, st)
            if a.k == 'int' and len(args) >= 2 and strip(sig[0]) == 'unsigned long':
                c = self.val(args[1], st); return V('str', 'repeat_u8(%s, %s)' % (self.to_u8(c), a.t))
            if len(args) >= 2 and a.k == 'ptr' and 'allocator' not in sig[1] and 'unsigned long' not in sig[1] and self.mtype(sig[1]) == 'ptr':
                b = self.val(args[1], st); return self.ptr_range(a, V('int', '(%s - %s)' % (b.x['off'].t, a.x['off'].t)), st)
            return self.as_str(a, st)
        if t in STREAMS:
            if not args or self.mtype(e['sig'][0]) != 'str': s = lit_bytes([])
            else: s = self.sval(args[0], st)
            self.size_fact(st, s)
            nm = self.fresh_name('stream'); st.add('let', nm, ('SS', 'ss_new(%s)' % s.t))
            return V('ss', nm)
        if t.startswith('std::allocator') or t.startswith('std::less'): return V('unit', '()')
        if re.match(r'std::(list|vector)<', t):
            if not args: mt = self.mtype(t); return V(mt, 'Seq::<%s>::empty()' % vtype(mt[1]))
            if len(args) == 1: return self.val(args[0], st)
        if t.startswith('std::map<'):
            mt = self.mtype(t)
            if not args: return V(mt, 'Map::<Seq<u8>, %s>::empty()' % vtype(mt[1]))
        if t.startswith('std::set<'):
            if not args: return V(('set', 'str'), 'Set::<Seq<u8>>::empty()')
        if 'iterator' in t:
            if not args: return V('iter', None, x={'kind': 'none', 'cont': None, 'idx': mkint(0)})
            return self.val(args[0], st)
        if t.startswith('std::shared_ptr<'):
            mt = self.mtype(t)
            if not args or self.mtype(e['sig'][0]) == 'ptr' and e['sig'][0] == 'std::nullptr_t': return V(mt, 'Option::<%s>::None' % vtype(mt[1]))
            return self.sp_from_ptr(mt, self.val(args[0], st), st)
        if t.startswith('std::function<'):
            return self.val(args[0], st)
        if t.startswith('std::fpos'):
            return self.val(args[0], st)
        if t in self.prog.records: return self.construct_record(e, t, f, args, st)
        return self.construct_more(e, t, args, st)
    def construct_more(self, e, t, args, st): raise Unsupported('construction of %s' % t)
    def default_of(self, ct, st, base):
        mt = self.mtype(ct)
        if mt == 'str': return lit_bytes([])
        if isinstance(mt, tuple):
            if mt[0] == 'seq': return V(mt, 'Seq::<%s>::empty()' % vtype(mt[1]))
            if mt[0] == 'map': return V(mt, 'Map::<Seq<u8>, %s>::empty()' % vtype(mt[1]))
            if mt[0] == 'opt': return V(mt, 'Option::<%s>::None' % vtype(mt[1]))
        return self.fresh(st, mt, base, ct)       # uninitialised scalar: any value
    def construct_record(self, e, t, f, args, st):
        root = self.fresh_name('obj')
        fs = {}
        for fld in self.fields(t):
            try: mt = self.mtype(fld['t'])
            except Unsupported: continue
            if mt in ('ptr', 'iter', 'lam', 'uptr', 'fun'): fs[fld['n']] = None; continue
            fs[fld['n']] = None
        st.store[root] = V(('rec', t), None, x=Rec(t, None, fs))
        ref = Ref(root)
        if f is None:          # implicit default constructor without emitted body
            for fld in self.fields(t):
                if fld['n'] in fs: self.init_field(st, ref, fld, None)
            return self.load(st, ref)
        self.run_ctor(f, ref, args, st)
        return self.load(st, ref)
    def init_field(self, st, ref, fld, expr):
        try: mt = self.mtype(fld['t'])
        except Unsupported: return
        if mt in ('iter', 'lam', 'uptr', 'fun'): return
        if expr is not None: v = self.rvalue(self.eval(expr, st), st)
        elif 'init' in fld: v = self.eval(fld['init'], st)
        elif mt == 'ptr': v = V('ptr', None, x={'target': 'null'})
        elif isinstance(mt, tuple) and mt[0] == 'rec':
            v = self.construct_record(None, mt[1], self.default_ctor(mt[1]), [], st)
        else: v = self.default_of(fld['t'], st, fld['n'])
        st.store[ref.root] = self.set_path(st.store[ref.root], ref.path + (fld['n'],), self.let(st, v, fld['n']) if v.t else v, st)
    def default_ctor(self, t):
        return self.prog.funcs.get('%s::<ctor>()' % t)
    def run_ctor(self, f, ref, args, st):
        avals = self.bind_args(f, args, st)
        c = self.ctx.contracts.get(f['f'])
        if any(x is f for x in self.callstack): raise Unsupported('recursive constructor')
        self.ctx.inlined.add(f['f'])
        act = Activation(f, ref); saved = self.act; self.act = act; self.callstack.append(f)
        try:
            for p, a in zip(f['params'], avals): self.bind_param(act, p, a, st)
            inits = {i['m']: i for i in f.get('inits', []) if 'm' in i}
            if any(i.get('delegating') for i in f.get('inits', [])): raise Unsupported('delegating constructor')
            for fld in self.fields(f['cls']):
                i = inits.get(fld['n'])
                ie = i['e'] if i else None
                if ie is not None and ie['k'] == 'CXXDefaultInitExpr': ie = ie['c'][0] if ie.get('c') else None
                self.init_field(st, ref, fld, ie if (i and (i['written'] or ie is not None)) else None)
            self.run_body(f, act, st)
        finally:
            self.act = saved; self.callstack.pop()
    def sp_from_ptr(self, mt, p, st):
        if p.k == 'ptr' and p.x['target'] == 'null': return V(mt, 'Option::<%s>::None' % vtype(mt[1]))
        if p.k == 'ptr' and p.x['target'] == 'new':
            return V(mt, 'Some(%s)' % self.pack(st.store[p.x['root']]))
        raise Unsupported('shared_ptr from pointer')
    def new_expr(self, e, st):
        t = strip(e['nt'])
        if e['array']:
            n = self.val(e['size'], st)
            if t not in ('unsigned char', 'char'): raise Unsupported('new[] of %s' % t)
            root = self.fresh_name('heap'); nm = self.fresh_name('heap')
            st.add('fresh', nm, 'Seq<u8>'); st.hyp('(%s.len() == %s)' % (nm, n.t))
            self.oblige(st, '(0 <= %s)' % n.t, 'allocation size is not negative')
            st.store[root] = V(('arr', t, None), nm)
            return V('ptr', None, x={'target': 'buf', 'ref': Ref(root), 'off': mkint(0)})
        if t in self.prog.records:
            v = self.eval(e['c'][0], st) if e.get('c') else self.construct_record(None, t, self.default_ctor(t), [], st)
            root = self.fresh_name('heap'); st.store[root] = v
            return V('ptr', None, x={'target': 'new', 'root': root})
        raise Unsupported('new %s' % t)

    # ------------------------------------------------------------ methods
    def std_method(self, e, cls, op, obj, args, st, arrow):
        ot = strip(obj['t'])
        if arrow:
            ref = self.deref(self.val(obj, st), st)
        else:
            ref = self.lval_or_temp(obj, st, 'obj')
        if cls == 'std::string':
            if any(self.effects(a) for a in args): args = self.once(args, st)
            return self.str_method(e, op, ref, args, st)
        if cls.startswith('std::basic_ios') or cls in ('std::istream', 'std::basic_istream<char>') or cls in STREAMS or cls == 'std::basic_istream': return self.ss_method(e, op, ref, args, st)
        if cls.startswith('std::list<') or cls.startswith('std::vector<'): return self.seq_method(e, op, ref, args, st)
        if cls.startswith('std::map<'): return self.map_method(e, op, ref, args, st)
        if cls.startswith('std::set<'): return self.set_method(e, op, ref, args, st)
        if 'iterator' in cls: return self.iter_method(e, op, ref, args, st)
        if cls.startswith('std::__shared_ptr') or cls.startswith('std::shared_ptr'): return self.sp_method(e, op, ref, args, st)
        if cls.startswith('std::fpos'): return self.load(st, ref)
        if cls.startswith('std::function<'):
            return self.fun_method(e, op, ref, args, st)
        return self.method_more(e, cls, op, ref, args, st)
    def effects(self, e):
        """evaluation of e may change the state"""
        if isinstance(e, list): return any(self.effects(x) for x in e)
        if not isinstance(e, dict): return False
        if e.get('k') in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr') or (e.get('k') == 'BinaryOperator' and e.get('op', '').endswith('=') and e.get('op') not in ('==', '!=', '<=', '>=')) or e.get('k') == 'CompoundAssignOperator' or (e.get('k') == 'UnaryOperator' and e.get('op') in ('++', '--')): return True
        return any(self.effects(v) for k, v in e.items() if isinstance(v, (dict, list)))
    def method_more(self, e, cls, op, ref, args, st):
        if cls.startswith('(lambda') and op == 'operator()': return self.fun_method(e, op, ref, args, st)
        raise Unsupported('method %s::%s' % (cls, op))
    def fun_method(self, e, op, ref, args, st):
        f = self.load(st, ref)
        if op == 'operator()': return self.call_fun(f, args, st, e)
        raise Unsupported('std::function %s' % op)
    def call_fun(self, f, args, st, e):
        if f.k == 'lam': return self.rvalue(self.call_lambda(f, args, st), st)
        raise Unsupported('call of %s' % (f.k,))
    def call_indirect(self, e, st): raise Unsupported('indirect call')

    # ---- std::string
    def str_method(self, e, op, ref, args, st):
        s = self.load(st, ref); sig = e['sig']
        A = lambda i: self.val(args[i], st)
        lref = V('lref', None, x=ref)
        if op in ('size', 'length'): return self.size_fact(st, s)
        if op == 'empty':
            return mkbool(len(s.c) == 0) if s.c is not None else V('bool', '(%s.len() == 0)' % atom(s.t))
        if op == 'clear': self.save(st, ref, lit_bytes([])); return V('unit', '()')
        if op in ('reserve', 'shrink_to_fit'):
            for a in args: self.val(a, st)
            return V('unit', '()')
        if op in ('c_str', 'data'): return V('ptr', None, x={'target': 'cstr', 's': s, 'off': mkint(0), 'data': True})
        if op in ('operator=', 'assign'):
            if len(args) == 1: self.save(st, ref, self.sval(args[0], st)); return lref
            raise Unsupported('assign')
        if op in ('operator+=', 'append', 'push_back'):
            if len(args) == 1:
                b = self.sval(args[0], st)
                s = self.load(st, ref)
                if s.c is not None and b.c is not None: n = lit_bytes(s.c + b.c)
                elif s.c == b'': n = b
                else: n = V('str', self.append_term(s.t, b))
            elif len(args) == 2 and 'unsigned long' == strip(sig[0]):
                n0 = A(0); c = A(1); n = V('str', '(%s + repeat_u8(%s, %s))' % (s.t, self.to_u8(c), n0.t))
            elif len(args) == 2 and 'iterator' in sig[0]:
                n = V('str', '(%s + %s)' % (s.t, self.iter_range_str(A(0), A(1), st).t))
            elif len(args) == 2 and self.mtype(sig[0]) == 'ptr':
                p = A(0); b = self.ptr_range(p, A(1), st); n = V('str', '(%s + %s)' % (s.t, b.t))
            else: raise Unsupported('append')
            self.save(st, ref, n); return lref
        if op in ('operator[]', 'at'):
            i = A(0)
            if s.c is not None and i.c is not None and i.c < len(s.c): return self.conv_int(st, mkint(s.c[i.c]), 'char')
            self.oblige(st, '(0 <= %s < %s.len())' % (i.t, atom(s.t)), 'string index in bounds')
            return V('lref', None, x=ref.sub(('idx', i.t)))
        if op in ('back', 'front'):
            self.oblige(st, '(%s.len() > 0)' % atom(s.t), 'string is not empty')
            return V('lref', None, x=ref.sub(('idx', '0' if op == 'front' else '%s.len() - 1' % atom(s.t))))
        if op == 'substr':
            p = A(0) if args else mkint(0); n = A(1) if len(args) > 1 else mkint(NPOS)
            if p.c != 0: self.oblige(st, '(%s <= %s.len())' % (p.t, atom(s.t)), 'substr position in range')
            if n.c == NPOS: return V('str', '%s.subrange(%s, %s.len() as int)' % (atom(s.t), p.t, atom(s.t))) if p.c != 0 else s
            return V('str', 'str_substr(%s, %s, %s)' % (s.t, p.t, n.t))
        if op == 'erase':
            if len(args) == 0: self.save(st, ref, lit_bytes([])); return lref
            if 'iterator' in sig[0]:
                a = A(0)
                if len(args) == 1: b = mkint(0); raise Unsupported('erase(it)')
                b = A(1)
                ai, bi = self.siter_idx(a, ref, st), self.siter_idx(b, ref, st)
                self.oblige(st, '(0 <= %s <= %s <= %s.len())' % (ai.t, bi.t, atom(s.t)), 'erase range valid')
                self.save(st, ref, V('str', 'str_erase(%s, %s, (%s - %s))' % (s.t, ai.t, bi.t, ai.t)))
                return V('iter', None, x={'kind': 'str', 'cont': ref, 'idx': ai})
            p = A(0); n = A(1) if len(args) > 1 else mkint(NPOS)
            if p.c != 0: self.oblige(st, '(%s <= %s.len())' % (p.t, atom(s.t)), 'erase position in range')
            self.save(st, ref, V('str', 'str_erase(%s, %s, %s)' % (s.t, p.t, n.t))); return lref
        if op in ('find', 'find_first_of', 'find_first_not_of', 'find_last_not_of', 'find_last_of', 'rfind'):
            last = op in ('find_last_not_of', 'find_last_of', 'rfind')
            p = A(1) if len(args) > 1 else mkint(NPOS if last else 0)
            b = self.sval(args[0], st)
            self.size_fact(st, s)
            if op == 'find':
                ch = strip(sig[0]) == 'char' or (b.c is not None and len(b.c) == 1)
                t = 'str_find_char(%s, %s, %s)' % (s.t, self.one_byte(b), p.t) if ch else 'str_find(%s, %s, %s)' % (s.t, b.t, p.t)
            elif op == 'rfind':
                if not (strip(sig[0]) == 'char' or (b.c is not None and len(b.c) == 1)): raise Unsupported('rfind')
                t = 'str_find_last_of(%s, %s, %s)' % (s.t, b.t, p.t)
            else: t = 'str_%s(%s, %s, %s)' % (op, s.t, b.t, p.t)
            v = self.let(st, V('int', t), 'pos')
            st.add('hint', 'lemma_' + t + ';', None)
            v.lo, v.hi = 0, NPOS
            return v
        if op in ('begin', 'cbegin'): return V('iter', None, x={'kind': 'str', 'cont': ref, 'idx': mkint(0)})
        if op in ('end', 'cend'): return V('iter', None, x={'kind': 'str', 'cont': ref, 'idx': V('int', '(%s.len() as int)' % atom(s.t))})
        if op in ('rbegin',): return V('iter', None, x={'kind': 'rstr', 'cont': ref, 'idx': mkint(0)})
        if op in ('rend',): return V('iter', None, x={'kind': 'rstr', 'cont': ref, 'idx': V('int', '(%s.len() as int)' % atom(s.t))})
        if op == 'compare' and len(args) == 1:
            b = self.sval(args[0], st); return V('int', 'str_compare(%s, %s)' % (s.t, b.t))
        if op == 'compare' and len(args) == 3:
            p, n = A(0), A(1); b = self.sval(args[2], st)
            if p.c != 0: self.oblige(st, '(%s <= %s.len())' % (p.t, atom(s.t)), 'compare position in range')
            return V('int', 'str_compare(str_substr(%s, %s, %s), %s)' % (s.t, p.t, n.t, b.t))
        if op == 'insert' and len(args) == 2 and strip(sig[0]) == 'unsigned long':
            p = A(0); b = self.sval(args[1], st)
            self.oblige(st, '(%s <= %s.len())' % (p.t, atom(s.t)), 'insert position in range')
            self.save(st, ref, V('str', '(%s.subrange(0, %s) + %s + %s.subrange(%s, %s.len() as int))' % (atom(s.t), p.t, b.t, atom(s.t), p.t, atom(s.t)))); return lref
        if op == 'pop_back':
            self.oblige(st, '(%s.len() > 0)' % atom(s.t), 'string is not empty')
            self.save(st, ref, V('str', '%s.drop_last()' % atom(s.t))); return V('unit', '()')
        if op == 'resize':
            n = A(0); self.save(st, ref, V('str', 'str_resize(%s, %s)' % (s.t, n.t))); return V('unit', '()')
        raise Unsupported('std::string::%s' % op)
    def one_byte(self, b):
        if b.c is not None: return '%du8' % b.c[0]
        m = re.fullmatch(r'seq!\[(.*)\]', b.t)
        if m: return m.group(1)
        raise Unsupported('byte of string')
    def siter_idx(self, it, ref, st):
        if it.k != 'iter' or it.x['kind'] != 'str' or it.x['cont'] != ref: raise Unsupported('iterator of another string')
        return it.x['idx']
    def iter_range_str(self, a, b, st):
        if a.k == 'iter' and b.k == 'iter' and a.x['cont'] == b.x['cont']:
            s = self.load(st, a.x['cont'])
            self.oblige(st, '(0 <= %s <= %s <= %s.len())' % (a.x['idx'].t, b.x['idx'].t, atom(s.t)), 'iterator range valid')
            if a.x['kind'] == 'str': return V('str', '%s.subrange(%s, %s)' % (atom(s.t), a.x['idx'].t, b.x['idx'].t))
            if a.x['kind'] == 'rstr': return V('str', 'seq_rev(%s).subrange(%s, %s)' % (s.t, a.x['idx'].t, b.x['idx'].t))
        raise Unsupported('iterator range')
    def ptr_range(self, p, n, st):
        """bytes [p, p+n)"""
        if p.k != 'ptr': raise Unsupported('pointer range')
        if p.x['target'] == 'cstr':
            s = p.x['s']; off = p.x['off']
            self.oblige(st, '(0 <= %s && %s + %s <= %s.len() + 1)' % (off.t, off.t, n.t, atom(s.t)), 'read within the string')
            if off.c == 0:
                st.add('hint', 'lemma_str_read(%s, %s);' % (s.t, n.t), None)
                return V('str', 'str_read(%s, %s)' % (s.t, n.t))
            return V('str', 'str_read(%s, %s + %s).subrange(%s, %s + %s)' % (s.t, off.t, n.t, off.t, off.t, n.t))
        if p.x['target'] == 'buf':
            v = self.load(st, p.x['ref']); off = p.x['off']
            if v.k != 'str' and vtype(v.k) != 'Seq<u8>': raise Unsupported('pointer range')
            end = self.ptr_add(off, n)
            self.oblige(st, '(0 <= %s <= %s <= %s.len())' % (off.t, end.t, atom(v.t)), 'read within the buffer')
            return V('str', '%s.subrange(%s, %s)' % (atom(v.t), off.t, end.t))
        raise Unsupported('pointer range of %s' % p.x['target'])
    def write_buf(self, p, bytes_term, n, st, what):
        """store n bytes at p"""
        if p.k != 'ptr' or p.x['target'] != 'buf': raise Unsupported('write through pointer')
        v = self.load(st, p.x['ref']); off = p.x['off']
        self.oblige(st, '(0 <= %s && %s + %s <= %s.len())' % (off.t, off.t, n, atom(v.t)), '%s writes within the buffer' % what)
        self.save(st, p.x['ref'], V(v.k, 'buf_write(%s, %s, %s)' % (v.t, off.t, bytes_term)))

    # ---- streams
    def ss_method(self, e, op, ref, args, st):
        s = self.load(st, ref)
        A = lambda i: self.val(args[i], st)
        if op == 'peek':
            if s.pk: n = s
            else:
                n = V('ss', 'ss_peeked(%s)' % s.t); n = self.let_force(st, n, ref); n.pk = True; n.x = s.x
                self.save(st, ref, n)
                self.keep_pk(st, ref, n)
            return V('int', 'ss_pk(%s)' % n.t, lo=-1, hi=255)
        if op == 'get' and not args:
            v = V('int', 'ss_pk(%s)' % s.t, lo=-1, hi=255)
            self.save(st, ref, self.let_force(st, V('ss', 'ss_get(%s)' % s.t), ref))
            return v
        if op == 'putback':
            c = A(0)
            self.oblige(st, '(%s.pos > 0 && !%s.fail && %s.d[%s.pos - 1] == %s)' % (s.t, s.t, s.t, s.t, self.to_u8(c)), 'putback restores the byte just read')
            self.save(st, ref, self.let_force(st, V('ss', 'ss_putback(%s)' % s.t), ref)); return V('lref', None, x=ref)
        if op == 'unget':
            self.oblige(st, '(%s.pos > 0 && !%s.fail)' % (s.t, s.t), 'unget at a readable position')
            self.save(st, ref, self.let_force(st, V('ss', 'ss_putback(%s)' % s.t), ref)); return V('lref', None, x=ref)
        if op == 'tellg': return V('int', 'ss_tellg(%s)' % s.t, lo=-1, hi=2**63-1)
        if op == 'clear':
            self.save(st, ref, self.let_force(st, V('ss', 'ss_clear(%s)' % s.t), ref)); return V('unit', '()')
        if op == 'good': return V('bool', 'ss_good(%s)' % s.t)
        if op == 'eof': return V('bool', '%s.eof' % s.t)
        if op == 'fail' or op == 'operator!': return V('bool', '%s.fail' % s.t)
        if op == 'operator bool': return V('bool', '!%s.fail' % s.t)
        if op == 'seekg':
            p = A(0)
            self.oblige(st, '(!%s.eof && !%s.fail)' % (s.t, s.t), 'seekg on a stream in good state')
            self.oblige(st, '(0 <= %s <= %s.d.len())' % (p.t, s.t), 'seekg within the stream')
            self.save(st, ref, self.let_force(st, V('ss', 'ss_seek(%s, %s)' % (s.t, p.t)), ref)); return V('lref', None, x=ref)
        if op == 'read':
            p, n = A(0), A(1)
            cnt = self.let(st, V('int', 'ss_avail(%s, %s)' % (s.t, n.t)), 'gcount')
            st.hyp('(0 <= %s <= %s)' % (cnt.t, n.t))
            self.oblige(st, '(%s >= 0)' % n.t, 'read count is not negative')
            v = self.load(st, p.x['ref'])
            self.oblige(st, '(0 <= %s && %s + %s <= %s.len())' % (p.x['off'].t, p.x['off'].t, n.t, atom(v.t)), 'read fits the buffer')
            self.save(st, p.x['ref'], V(v.k, 'buf_write(%s, %s, %s.d.subrange(%s.pos, %s.pos + %s))' % (v.t, p.x['off'].t, s.t, s.t, s.t, cnt.t)))
            self.save(st, ref, self.let_force(st, V('ss', 'ss_read(%s, %s)' % (s.t, n.t)), ref))
            st.store['@gcount:%s' % (ref.root,)] = V('int', cnt.t, lo=0, hi=2**63-1)
            return V('lref', None, x=ref)
        if op == 'gcount':
            k = '@gcount:%s' % (ref.root,)
            if k not in st.store: raise Unsupported('gcount')
            return st.store[k]
        if op == 'str' and not args: return V('str', '%s.d' % s.t)
        raise Unsupported('stream %s' % op)
    def let_force(self, st, v, ref):
        nm = self.fresh_name(ref.path[-1] if ref.path and isinstance(ref.path[-1], str) else ref.root.split('#')[0]); st.add('let', nm, ('SS', v.t)); return V('ss', nm)
    def keep_pk(self, st, ref, n):
        if not ref.path: st.store[ref.root].pk = True

    # ---- sequences
    def seq_method(self, e, op, ref, args, st):
        s = self.load(st, ref); A = lambda i: self.val(args[i], st)
        lref = V('lref', None, x=ref)
        if op == 'size':
            st.hyp('(%s.len() < 9223372036854775807)' % atom(s.t)); return V('int', '(%s.len() as int)' % atom(s.t), lo=0, hi=2**63-2)
        if op == 'empty': return V('bool', '(%s.len() == 0)' % atom(s.t))
        if op == 'clear': self.save(st, ref, V(s.k, 'Seq::<%s>::empty()' % vtype(s.k[1]))); return V('unit', '()')
        if op in ('push_back', 'emplace_back'):
            v = A(0); s = self.load(st, ref)
            self.save(st, ref, V(s.k, '%s.push(%s)' % (atom(s.t), self.pack(v)))); return V('unit', '()')
        if op == 'push_front':
            v = A(0); self.save(st, ref, V(s.k, '(seq![%s] + %s)' % (self.pack(v), s.t))); return V('unit', '()')
        if op in ('back', 'front'):
            self.oblige(st, '(%s.len() > 0)' % atom(s.t), 'container is not empty')
            return V('lref', None, x=ref.sub(('idx', '0' if op == 'front' else '(%s.len() - 1)' % atom(s.t))))
        if op == 'pop_back':
            self.oblige(st, '(%s.len() > 0)' % atom(s.t), 'container is not empty')
            self.save(st, ref, V(s.k, '%s.drop_last()' % atom(s.t))); return V('unit', '()')
        if op == 'pop_front':
            self.oblige(st, '(%s.len() > 0)' % atom(s.t), 'container is not empty')
            self.save(st, ref, V(s.k, '%s.drop_first()' % atom(s.t))); return V('unit', '()')
        if op in ('begin', 'cbegin'): return V('iter', None, x={'kind': 'list', 'cont': ref, 'idx': mkint(0), 'snap': s.t})
        if op in ('end', 'cend'): return V('iter', None, x={'kind': 'list', 'cont': ref, 'idx': V('int', '(%s.len() as int)' % atom(s.t)), 'snap': s.t})
        if op in ('rbegin', 'crbegin'): return V('iter', None, x={'kind': 'rlist', 'cont': ref, 'idx': mkint(0), 'snap': s.t})
        if op in ('rend', 'crend'): return V('iter', None, x={'kind': 'rlist', 'cont': ref, 'idx': V('int', '(%s.len() as int)' % atom(s.t)), 'snap': s.t})
        if op == 'operator=': self.save(st, ref, A(0)); return lref
        if op == 'operator[]' or op == 'at':
            i = A(0); self.oblige(st, '(0 <= %s < %s.len())' % (i.t, atom(s.t)), 'index in bounds')
            return V('lref', None, x=ref.sub(('idx', i.t)))
        if op == 'remove':
            v = A(0); self.save(st, ref, V(s.k, 'seq_remove_all(%s, %s)' % (s.t, self.pack(v)))); return V('unit', '()')
        if op == 'insert' and len(args) == 3:
            p, a, b = A(0), A(1), A(2)
            if p.x['cont'] != ref or p.x['idx'].t != '(%s.len() as int)' % atom(s.t): raise Unsupported('insert not at end')
            src = self.load(st, a.x['cont'])
            if a.x['idx'].c != 0 or b.x['idx'].t != '(%s.len() as int)' % atom(src.t) or a.x['kind'] != 'list': raise Unsupported('partial insert')
            self.save(st, ref, V(s.k, '(%s + %s)' % (s.t, src.t))); return V('unit', '()')
        raise Unsupported('sequence %s' % op)
    def map_method(self, e, op, ref, args, st):
        s = self.load(st, ref)
        if op == 'clear': self.save(st, ref, V(s.k, 'Map::<Seq<u8>, %s>::empty()' % vtype(s.k[1]))); return V('unit', '()')
        if op == 'find':
            k = self.sval(args[0], st)
            kt = self.let(st, k, 'key')
            return V('iter', None, x={'kind': 'find', 'cont': ref, 'key': kt, 'idx': mkint(0), 'found': V('bool', '%s.dom().contains(%s)' % (atom(s.t), kt.t))})
        if op in ('end', 'cend'): return V('iter', None, x={'kind': 'mapend', 'cont': ref, 'idx': mkint(0)})
        if op == 'count':
            k = self.sval(args[0], st); return V('int', '(if %s.dom().contains(%s) { 1int } else { 0int })' % (atom(s.t), k.t), lo=0, hi=1)
        if op == 'empty': return V('bool', '(%s =~= Map::<Seq<u8>, %s>::empty())' % (s.t, vtype(s.k[1])))
        if op == 'operator[]':
            k = self.let(st, self.sval(args[0], st), 'key')
            d = self.map_default(s.k[1], st)
            self.save(st, ref, V(s.k, 'map_touch(%s, %s, %s)' % (s.t, k.t, self.pack(d))))
            return V('lref', None, x=ref.sub(('key', k.t)))
        raise Unsupported('map %s' % op)
    def map_default(self, mt, st):
        if isinstance(mt, tuple) and mt[0] == 'seq': return V(mt, 'Seq::<%s>::empty()' % vtype(mt[1]))
        if isinstance(mt, tuple) and mt[0] == 'rec': return self.construct_record(None, mt[1], self.default_ctor(mt[1]), [], st)
        if mt == 'str': return lit_bytes([])
        raise Unsupported('map default')
    def set_method(self, e, op, ref, args, st):
        s = self.load(st, ref)
        if op == 'insert':
            v = self.sval(args[0], st); v = self.let(st, v, 'elem')
            inn = V('bool', '!%s.contains(%s)' % (atom(s.t), v.t))
            inn = self.let(st, inn, 'inserted')
            self.save(st, ref, V(s.k, '%s.insert(%s)' % (atom(s.t), v.t)))
            return V('pair', None, x={'second': inn})
        if op == 'find':
            k = self.sval(args[0], st)
            return V('iter', None, x={'kind': 'find', 'cont': ref, 'key': k, 'idx': mkint(0), 'found': V('bool', '%s.contains(%s)' % (atom(s.t), k.t))})
        if op == 'count':
            k = self.sval(args[0], st); return V('int', '(if %s.contains(%s) { 1int } else { 0int })' % (atom(s.t), k.t), lo=0, hi=1)
        if op in ('end', 'cend'): return V('iter', None, x={'kind': 'mapend', 'cont': ref, 'idx': mkint(0)})
        if op == 'empty': return V('bool', '(%s =~= Set::<%s>::empty())' % (s.t, vtype(s.k[1])))
        raise Unsupported('set %s' % op)
    def iter_method(self, e, op, ref, args, st):
        it = self.load(st, ref)
        if op == 'operator=': self.save_iter(st, ref, self.val(args[0], st)); return V('lref', None, x=ref)
        k = it.x['kind']
        if op == 'operator++':
            d = dict(it.x); i = d['idx']
            c = self.load(st, d['cont'])
            self.oblige(st, '(%s < %s.len())' % (i.t, atom(c.t)), 'iterator incremented before the end')
            d['idx'] = self.let(st, V('int', '(%s + 1)' % i.t) if i.c is None else mkint(i.c + 1), 'it')
            n = V('iter', None, x=d); self.save_iter(st, ref, n)
            return it if args else V('lref', None, x=ref)
        if op == 'operator--':
            d = dict(it.x); i = d['idx']
            self.oblige(st, '(%s > 0)' % i.t, 'iterator decremented after the beginning')
            d['idx'] = self.let(st, V('int', '(%s - 1)' % i.t) if i.c is None else mkint(i.c - 1), 'it')
            n = V('iter', None, x=d); self.save_iter(st, ref, n)
            return it if args else V('lref', None, x=ref)
        if op in ('operator*', 'operator->'):
            if k == 'find':
                self.oblige(st, it.x['found'].t, 'dereferenced iterator is not end()')
                r = V('ptr', None, x={'target': 'pair', 'cont': it.x['cont'], 'key': it.x['key']})
                if op == 'operator->': return r
                raise Unsupported('deref of map iterator')
            c = self.load(st, it.x['cont'])
            if 'snap' in it.x and it.x['snap'] != c.t: raise Unsupported('container changed while iterating')
            self.oblige(st, '(0 <= %s < %s.len())' % (it.x['idx'].t, atom(c.t)), 'dereferenced iterator is not end()')
            i = it.x['idx'].t if k in ('list', 'str') else '(%s.len() - 1 - %s)' % (atom(c.t), it.x['idx'].t)
            r = it.x['cont'].sub(('idx', i))
            return V('lref', None, x=r) if op == 'operator*' else V('ptr', None, x={'target': 'obj', 'ref': r})
        if op in ('operator+', 'operator-') and k == 'str':
            n = self.val(args[0], st)
            if n.k == 'iter': return V('int', '(%s - %s)' % (it.x['idx'].t, n.x['idx'].t))
            d = dict(it.x); d['idx'] = V('int', '(%s %s %s)' % (it.x['idx'].t, op[-1], n.t))
            s = self.load(st, it.x['cont'])
            self.oblige(st, '(0 <= %s <= %s.len())' % (d['idx'].t, atom(s.t)), 'iterator arithmetic in range')
            return V('iter', None, x=d)
        raise Unsupported('iterator %s' % op)
    def save_iter(self, st, ref, v):
        if ref.path: raise Unsupported('iterator inside an object')
        st.store[ref.root] = v
    def lval(self, e, st):
        if e['k'] == 'MemberExpr' and 'f' not in e and e['n'] in ('second', 'first'):
            b = e['c'][0]
            v = self.val(b, st) if e['arrow'] else self.eval(b, st)
            v = self.rvalue(v, st)
            if v.k == 'ptr' and v.x['target'] == 'pair':
                if e['n'] == 'second': return v.x['cont'].sub(('key', v.x['key'].t))
                root = self.fresh_name('first'); st.store[root] = v.x['key']; return Ref(root)
            if v.k == 'pair':
                root = self.fresh_name('sec'); st.store[root] = v.x[e['n']]; return Ref(root)
        return super().lval(e, st)
    def sp_method(self, e, op, ref, args, st):
        v = self.load(st, ref)
        if op == 'get': return V('ptr', None, x={'target': 'sp', 'ref': ref})
        if op == 'reset':
            if not args: self.save(st, ref, V(v.k, 'Option::<%s>::None' % vtype(v.k[1]))); return V('unit', '()')
            self.save(st, ref, self.sp_from_ptr(v.k, self.val(args[0], st), st)); return V('unit', '()')
        if op in ('operator->', 'operator*'):
            self.oblige(st, '(%s is Some)' % atom(self.pack(v)), 'shared_ptr is not null')
            r = ref.sub(('some',))
            return V('ptr', None, x={'target': 'obj', 'ref': r}) if op == 'operator->' else V('lref', None, x=r)
        if op == 'operator bool': return V('bool', '(%s is Some)' % atom(self.pack(v)))
        if op == 'operator=': self.save(st, ref, self.val(args[0], st)); return V('lref', None, x=ref)
        raise Unsupported('shared_ptr %s' % op)

    # ---- free functions
    def std_function(self, e, f, args, st):
        A = lambda i: self.val(args[i], st)
        if f == 'std::min' or f == 'std::max':
            a, b = A(0), A(1)
            c = self.compare(st, '<' if f == 'std::min' else '>', b, a)
            lo = hi = None
            if None not in (a.lo, a.hi, b.lo, b.hi):
                g = min if f == 'std::min' else max
                lo, hi = g(a.lo, b.lo), g(a.hi, b.hi)
            return self.let(st, V('int', '(if %s { %s } else { %s })' % (c.t, b.t, a.t), lo=lo, hi=hi), 'm')
        if f in ('std::move', 'std::forward'): return self.eval(args[0], st)
        if f in ('std::getline',):
            r = self.lval(args[0], st); l = self.lval(args[1], st); s = self.load(st, r)
            line = self.let(st, V('str', 'ss_line(%s)' % s.t), 'line')
            ok = V('bool', 'ss_line_ok(%s)' % s.t)
            self.save(st, r, self.let_force(st, V('ss', 'ss_getline(%s)' % s.t), r)); self.save(st, l, line)
            return V('lref', None, x=r)
        if f in ('tolower', 'toupper'):
            a = A(0)
            return V('int', 'c_%s(%s)' % (f, a.t))
        if f in ('isdigit', 'isalpha', 'isalnum', 'isspace', 'isxdigit', 'isprint', 'isupper', 'islower'):
            a = A(0)
            self.oblige(st, '(-1 <= %s <= 255)' % a.t, 'argument of %s is an unsigned char or EOF' % f)
            return V('int', 'c_%s(%s)' % (f, a.t))
        if f == 'std::find':
            a, b = A(0), A(1)
            if a.x['kind'] == 'str' and a.x['cont'] == b.x['cont']:
                s = self.load(st, a.x['cont']); c = self.val(args[2], st)
                if a.x['idx'].c != 0 or b.x['idx'].t != '(%s.len() as int)' % atom(s.t): raise Unsupported('partial find')
                v = self.let(st, V('int', 'find_idx(%s, %s)' % (s.t, self.to_u8(c))), 'fi')
                st.add('hint', 'lemma_idx_from(%s, %s, 0);' % (s.t, self.to_u8(c)), None)
                return V('iter', None, x={'kind': 'str', 'cont': a.x['cont'], 'idx': v})
            if a.x['kind'] == 'list' and a.x['cont'] == b.x['cont']:
                s = self.load(st, a.x['cont']); c = self.val(args[2], st)
                if c.k == 'ptr': c = self.as_str(c, st)
                if c.k == ('arr',) or (c.k == 'str' and s.k[1] == 'str'):
                    if c.c is not None and c.c.endswith(b'\0'): c = lit_bytes(c.c[:-1])
                if a.x['idx'].c != 0 or b.x['idx'].t != '(%s.len() as int)' % atom(s.t): raise Unsupported('partial find')
                v = self.let(st, V('int', 'seq_find(%s, %s)' % (s.t, self.pack(c))), 'fi')
                st.add('hint', 'lemma_seq_find(%s, %s);' % (s.t, self.pack(c)), None)
                return V('iter', None, x={'kind': 'list', 'cont': a.x['cont'], 'idx': v, 'snap': s.t})
            raise Unsupported('std::find')
        if f in ('std::transform',):
            a, b, o = A(0), A(1), A(2); fn = A(3)
            ft = self.map_fn(fn, st)
            if o.k != 'iter' or o.x['cont'] != a.x['cont'] or o.x['idx'].t != a.x['idx'].t or a.x['cont'] != b.x['cont']: raise Unsupported('transform')
            r = a.x['cont']; s = self.load(st, r)
            self.oblige(st, '(0 <= %s <= %s <= %s.len())' % (a.x['idx'].t, b.x['idx'].t, atom(s.t)), 'transform range valid')
            if a.x['idx'].c == 0 and b.x['idx'].t == '(%s.len() as int)' % atom(s.t): self.save(st, r, V('str', '%s_seq(%s)' % (ft[2:], s.t)))
            else: self.save(st, r, V('str', 'map_range_%s(%s, %s, %s)' % (ft, s.t, a.x['idx'].t, b.x['idx'].t)))
            return V('unit', '()')
        if f == 'std::remove' or f == 'std::remove_if':
            a, b = A(0), A(1)
            r = a.x['cont']; s = self.load(st, r)
            if a.x['kind'] != 'str' or a.x['idx'].c != 0 or b.x['idx'].t != '(%s.len() as int)' % atom(s.t): raise Unsupported('remove')
            if f == 'std::remove':
                c = self.val(args[2], st); kept = 'str_without(%s, %s)' % (s.t, self.to_u8(c))
            else:
                fn = A(2); kept = '%s(%s)' % (self.filter_fn(fn, st), s.t); self.oblige(st, 'ascii(%s)' % s.t, 'arguments of isspace are unsigned char values')
            # the tail keeps unspecified bytes
            nm = self.fresh_name('tail'); st.add('fresh', nm, 'Seq<u8>')
            k = self.let(st, V('str', kept), 'kept')
            st.hyp('(%s.len() + %s.len() == %s.len())' % (k.t, nm, atom(s.t)))
            st.add('hint', 'lemma_erase_tail(%s, %s);' % (k.t, nm), None)
            self.save(st, r, V('str', '(%s + %s)' % (k.t, nm)))
            return V('iter', None, x={'kind': 'str', 'cont': r, 'idx': V('int', '(%s.len() as int)' % k.t)})
        if f == 'time':
            return self.world_time(st)
        if f == '__errno_location': return V('ptr', None, x={'target': 'obj', 'ref': Ref('@errno')})
        return self.function_more(e, f, args, st)
    def world_time(self, st):
        if '@time' not in st.store: raise Unsupported('time()')
        return st.store['@time']
    def map_fn(self, fn, st):
        if fn.k == 'fn' and fn.x['n'] in ('tolower', 'toupper'): return fn.x['n']
        raise Unsupported('transform with %s' % (fn.k,))
    def filter_fn(self, fn, st):
        if fn.k == 'fn' and fn.x['n'] == 'isspace': return 'str_without_space'
        raise Unsupported('remove_if with %s' % (fn.k,))
    def function_more(self, e, f, args, st): raise Unsupported('function %s' % f)

    # ---- whitespace-skipping loops
    def skip_annotation(self, call, st):
        src = call['c'][0]
        r = self.lval(src, st)
        ty = int(call['c'][1]['cv'])
        # the stream variable is reached through a location, not a name
        self.act.env['@skip'] = r; self.act.names['_skip'] = ['@skip']
        return {'inv': ['skip_end($_skip.d, $_skip.pos, %d) == skip_end($_skip.d, $_skip@L.pos, %d)' % (ty, ty),
                        'skip_throws($_skip.d, $_skip.pos, %d) == skip_throws($_skip.d, $_skip@L.pos, %d)' % (ty, ty),
                        '$_skip@L.pos <= $_skip.pos'],
                'head': ['lemma_skip($_skip.d, $_skip.pos, %d);' % ty]}

    def setup_world(self, st, c): pass
    def world_env(self): return {}
    def param_special(self, st, p, mt, c): raise Unsupported('parameter %s of kind %s' % (p['n'], mt))
