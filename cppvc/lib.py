"""Library-specific extensions of the executor: class invariants over pointer members, callbacks, OpenSSL/libsodium/libresolv calls."""
from engine import *
from execu import *
from expr import *
from stdm import *

# pointer members that are representation aliases: they always point at this part of their own object (class invariant,
# established by the constructor and checked at every store)
SO = 'DKIM::SignatoryOptions'
ALIAS = {(SO, m): ('m_signatures', ('idx', '0'), m) for m in
         ('m_privateKeyRSA', 'm_privateKeyRSAFree', 'm_privateKeyED25519', 'm_selector', 'm_domain', 'm_signatureAlgorithm')}

class ExecX(ExecS):
    def setup_world(self, st, c):
        st.store['@errno'] = self.fresh(st, 'int', 'errno', 'int'); self.rtype['@errno'] = 'int'
        st.store['@shared'] = mkint(0); self.rtype['@shared'] = 'unsigned long'
        if c.get('sink'): st.store['@sink'] = V('str', 'Seq::<u8>::empty()'); self.rtype['@sink'] = 'std::string'
    def world_env(self): return {'errno': Ref('@errno'), 'sink': Ref('@sink')}
    def lookup_var(self, act, name, st):
        if name == 'gcount':
            ks = [k for k in st.store if k.startswith('@gcount:')]
            if len(ks) == 1: return Ref(ks[0])
        if name in ('sink', 'errno') and '@' + name in st.store: return Ref('@' + name)
        return super().lookup_var(act, name, st)
    # ------------------------------------------------ callbacks: a sink receives byte ranges and does not throw
    def param_special(self, st, p, mt, c):
        if mt == 'fun' and c.get('sink') and strip(p['t']) == 'std::function<void (const char *, unsigned long)>': return V('fun', None, x={'sink': '@sink'})
        return super().param_special(st, p, mt, c)
    def call_fun(self, f, args, st, e):
        if f.k == 'fun' and f.x and 'sink' in f.x:
            b = self.ptr_range(self.val(args[0], st), self.val(args[1], st), st); k = f.x['sink']
            st.store[k] = self.let(st, V('str', '(%s + %s)' % (st.store[k].t, b.t)), 'sink'); return V('unit', '()')
        return super().call_fun(f, args, st, e)
    def call_contract(self, f, c, this, avals, st):
        refs = [(a, True) for p, a in zip(f['params'], avals) if isinstance(a, Ref) and p['t'].rstrip().endswith('&') and not p['t'].startswith('const')] + \
               [(a, False) for p, a in zip(f['params'], avals) if isinstance(a, Ref) and p['t'].startswith('const')]
        if this is not None: refs.append((this, not f.get('const')))
        for i, (a, wa) in enumerate(refs):
            for b, wb in refs[:i]:
                n = min(len(a.path), len(b.path))
                if (wa or wb) and a.root == b.root and all(x == y or (isinstance(x, tuple) and isinstance(y, tuple)) for x, y in zip(a.path[:n], b.path[:n])): raise Unsupported('arguments of %s overlap' % f['f'])
        r = super().call_contract(f, c, this, avals, st)
        if '@errno' in st.store: st.store['@errno'] = self.fresh(st, 'int', 'errno', 'int')
        return r
    # ------------------------------------------------ shared objects
    # shared_ptr is modelled by value; an object reachable through two pointers must not be modified through either.
    # '@shared:<location>' records that the pointer stored there has been copied; cleared by reset and assignment.
    def shkey(self, ref): return '@shared:%s%s' % (ref.root, ''.join('.' + str(p) for p in ref.path))
    def note_write(self, st, ref):
        for i, p in enumerate(ref.path):
            if p == ('some',):
                if any(isinstance(q, tuple) for q in ref.path[:i]): raise Unsupported('write to an object owned through a container')
                o = self.get_path(st.store[ref.root], ref.path[:i], st) if st.store.get(ref.root) is not None else None
                if o is not None and isinstance(o.x, dict) and o.x.get('copied'): raise Unsupported('write to an object through a copied pointer')
                fl = st.store.get(self.shkey(Ref(ref.root, ref.path[:i])))
                if fl is not None: self.oblige(st, b_not(fl).t, 'an object held by two owners is not modified')
    def mark_shared(self, e, st):
        while e.get('k') in ('ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXConstructExpr', 'CXXBindTemporaryExpr') and len(e.get('c', [])) == 1 and not (e.get('lv') and e['k'] == 'DeclRefExpr'): e = e['c'][0]
        if e.get('lv') and strip(e['t']).startswith('std::shared_ptr<'):
            try: r = self.lval(e, st)
            except NotLvalue: return
            if any(isinstance(q, tuple) for q in r.path): return     # elements of containers are never written through
            st.store[self.shkey(r)] = mkbool(True)
    def sp_method(self, e, op, ref, args, st):
        if op in ('operator=', 'swap') and args: self.mark_shared(args[0], st)
        r = super().sp_method(e, op, ref, args, st)
        if op in ('reset', 'operator='):
            k = self.shkey(ref)
            if k in st.store or op == 'operator=': st.store[k] = mkbool(op == 'operator=' and strip(args[0]['t']).startswith('std::shared_ptr<') and bool(args[0].get('lv')))
        return r
    # ------------------------------------------------ aliases
    def alias_of(self, st, ref):
        if not ref.path or not isinstance(ref.path[-1], str) or st.store.get(ref.root) is None: return None
        if not any(n == ref.path[-1] for _, n in ALIAS): return None
        o = self.get_path(st.store[ref.root], ref.path[:-1], st)
        if isinstance(o.k, tuple) and o.k[0] == 'rec' and (o.k[1], ref.path[-1]) in ALIAS:
            return Ref(ref.root, ref.path[:-1] + ALIAS[(o.k[1], ref.path[-1])])
        return None
    def under_construction(self, ref): return self.act is not None and self.act.fn.get('ctor') and self.act.this is not None and ref.root == self.act.this.root
    def load(self, st, ref):
        a = self.alias_of(st, ref)
        if a is not None and not self.under_construction(ref): return V('ptr', None, x={'target': 'obj', 'ref': a})
        return super().load(st, ref)
    def havoc(self, st, ref, base):
        self.note_write(st, ref); return super().havoc(st, ref, base)
    def save(self, st, ref, v, base=None):
        self.note_write(st, ref)
        a = self.alias_of(st, ref)
        if a is not None:
            if not (v.k == 'ptr' and v.x.get('target') == 'obj' and v.x['ref'] == a):
                self.oblige(st, 'false', 'member %s points into the first signature of its own object' % ref.path[-1])
            if not self.under_construction(ref): return
        return super().save(st, ref, v, base)
    def init_field(self, st, ref, fld, expr):
        o = st.store.get(ref.root)
        try:
            k = self.get_path(o, ref.path, st).k
            if expr is None and (k[1], fld['n']) in ALIAS: return
        except Unsupported: pass
        return super().init_field(st, ref, fld, expr)
    def seq_method(self, e, op, ref, args, st):
        if op in ('push_back', 'push_front', 'emplace_back') and args: self.mark_shared(args[0], st)
        if op in ('push_front', 'pop_front', 'clear', 'operator=', 'erase', 'pop_back', 'remove') and ref.path and any(p[0] == ref.path[-1] for p in ALIAS.values()):
            o = self.get_path(st.store[ref.root], ref.path[:-1], st)
            if isinstance(o.k, tuple) and o.k[0] == 'rec' and any(r == o.k[1] for r, _ in ALIAS):
                if not self.under_construction(ref) or any(o.x.f.get(n) is not None for r, n in ALIAS if r == o.k[1]):
                    self.oblige(st, 'false', 'the first signature of the options stays in place')
        return super().seq_method(e, op, ref, args, st)

    def method_more(self, e, cls, op, ref, args, st):
        if op == 'operator=' and cls in self.prog.records:
            self.save(st, ref, self.val(args[0], st)); return V('lref', None, x=ref)
        return super().method_more(e, cls, op, ref, args, st)
    # ------------------------------------------------ C library
    def cstring(self, e, st):
        """the NUL-terminated string at a pointer"""
        p = self.val(e, st)
        if p.k != 'ptr' or p.x['target'] != 'cstr' or p.x['off'].c != 0: raise Unsupported('C string argument')
        return self.as_str(p, st)
    def function_more(self, e, f, args, st):
        m = getattr(self, 'f_' + f.replace('::', '_'), None)
        if m is None: return super().function_more(e, f, args, st)
        return m(e, args, st)
    def f_strtoul(self, e, args, st): return self.strtonum(e, args, st, 'strtoul', 0, NPOS)
    def f_strtol(self, e, args, st): return self.strtonum(e, args, st, 'strtol', -2**63, 2**63 - 1)
    def strtonum(self, e, args, st, fn, lo, hi):
        s = self.cstring(args[0], st); end = self.val(args[1], st); base = self.val(args[2], st)
        if not (end.k == 'ptr' and end.x['target'] == 'null') or base.c not in (10, 16): raise Unsupported(fn)
        s = self.let(st, s, 'numeral')
        v = self.let(st, V('int', '%s_val(%s, %d)' % (fn, s.t, base.c), lo=lo, hi=hi), 'num')
        st.hyp('(%d <= %s <= %d)' % (lo, v.t, hi))
        if '@errno' in st.store:
            st.store['@errno'] = self.let(st, V('int', '(if %s_overflow(%s, %d) { 34int } else { %s })' % (fn, s.t, base.c, st.store['@errno'].t), lo=-2**31, hi=2**31 - 1), 'errno')
        return v
