"""Reference members, iterator parameters, the DNS resolver interface and raw packet access (assumed contracts on libresolv and on the caller's resolver callback)."""
from engine import *
from execu import *
from expr import *
from stdm import *
from lib import *
from ossl import ExecO
RESFN = 'std::function<bool (const std::string &, std::string &, void *)>'
GH = ('custom', 'rep_ok', 'rep_txt', 'asked_custom', 'asked_dns', 'ans_len', 'ans', 'herr')
STRS = ('seq', 'str')

class ExecN(ExecO):
    # ------------------------------------------------ ghosts: how the outside world answers (one question per call of the function)
    def setup_world(self, st, c):
        super().setup_world(st, c)
        if not c.get('dns'): return
        st.store['@custom'] = self.fresh(st, 'bool', 'custom'); st.store['@rep_ok'] = self.fresh(st, 'bool', 'rep_ok'); st.store['@rep_txt'] = self.fresh(st, 'str', 'rep_txt')
        st.store['@ans_len'] = self.fresh(st, 'int', 'ans_len', 'int'); st.store['@ans'] = self.fresh(st, 'str', 'ans'); st.store['@herr'] = self.fresh(st, 'int', 'herr', 'int')
        for n in ('asked_custom', 'asked_dns'): st.store['@' + n] = V(STRS, 'Seq::<Seq<u8>>::empty()')
        st.hyp('(%s.len() == 65536)' % st.store['@ans'].t)
    def world_env(self):
        d = super().world_env()
        if self.ctx.contract.get('dns'): d.update({n: Ref('@' + n) for n in GH})
        return d
    def lookup_var(self, act, name, st):
        if name in GH and '@' + name in st.store: return Ref('@' + name)
        return super().lookup_var(act, name, st)
    def ask(self, st, which, q):
        k = '@' + which
        if k not in st.store: raise Unsupported('DNS query')
        if st.store[k].t != 'Seq::<Seq<u8>>::empty()': raise Unsupported('a second DNS query')
        st.store[k] = self.let(st, V(STRS, 'seq![%s]' % q), which)
    def contract_extra(self, f, c, avals, st, pre, env):
        super().contract_extra(f, c, avals, st, pre, env)
        if c.get('dns'):
            if '@asked_dns' not in st.store: raise Unsupported('DNS query')
            for n in ('asked_custom', 'asked_dns'):
                if st.store['@' + n].t != 'Seq::<Seq<u8>>::empty()': raise Unsupported('a second DNS query')
            for n in GH: env.setdefault(n, Ref('@' + n))
            for n in ('asked_custom', 'asked_dns'): st.store['@' + n] = self.fresh(st, STRS, n)
    # ------------------------------------------------ iterator parameters: a position in a list of header fields
    def param_special(self, st, p, mt, c):
        if mt == 'iter':
            m = re.fullmatch(r'std::_List_const_iterator<(.*)>', strip(p['t']))
            if not m: raise Unsupported('iterator parameter %s' % p['n'])
            root = '@of:' + p['n']; s = self.fresh(st, ('seq', self.mtype(m.group(1))), p['n'] + '_of'); st.store[root] = s
            i = self.fresh(st, 'int', p['n']); st.hyp('(0 <= %s < %s.len())' % (i.t, s.t))
            self.iterof = getattr(self, 'iterof', {}); self.iterof[p['n'] + '_of'] = Ref(root)
            return V('iter', None, x={'kind': 'list', 'cont': Ref(root), 'idx': V('int', i.t, lo=0), 'snap': s.t})
        return super().param_special(st, p, mt, c)
    # ------------------------------------------------ reference members: the object owns the referenced stream
    def init_field(self, st, ref, fld, expr):
        if fld['t'].rstrip().endswith('&') and expr is not None:
            try: r = self.lval(expr, st)
            except NotLvalue: raise Unsupported('reference member bound to a temporary')
            if r.path or self.mtype(fld['t']) != 'ss' : raise Unsupported('reference member')
            v = st.store[r.root]
            st.store[ref.root] = self.set_path(st.store[ref.root], ref.path + (fld['n'],), v, st)
            del st.store[r.root]       # from here on the stream is named through the member
            for k, b in list(self.act.env.items()):
                if b == r: self.act.env[k] = ref.sub(fld['n'])
            return
        return super().init_field(st, ref, fld, expr)
    # ------------------------------------------------ the resolver callback
    def ftype(self, st, ref):
        if not ref.path or not isinstance(ref.path[-1], str) or st.store.get(ref.root) is None: return None
        o = self.get_path(st.store[ref.root], ref.path[:-1], st)
        if isinstance(o.k, tuple) and o.k[0] == 'rec' and o.k[1] in self.prog.records:
            for f in self.fields(o.k[1]):
                if f['n'] == ref.path[-1]: return f['t']
        return None
    def load(self, st, ref):
        if ref.root not in st.store and ref.root: raise Unsupported('unknown location %s' % (ref.root,))
        t = self.ftype(st, ref) if ref.path else None
        if t is not None:
            if strip(t) == RESFN: return V('fun', None, x={'resolver': ref})
            if strip(t) == 'void *': return V('ptr', None, x={'target': 'opaque', 'ref': ref})
        return super().load(st, ref)
    def save(self, st, ref, v, base=None):
        t = self.ftype(st, ref) if ref.path else None
        if t is not None and strip(t) in (RESFN, 'void *') and not self.under_construction(ref): raise Unsupported('assignment of the resolver')
        return super().save(st, ref, v, base)
    def truth(self, st, v):
        if v.k == 'fun' and v.x and 'resolver' in v.x and '@custom' in st.store: return st.store['@custom']
        return super().truth(st, v)
    def fun_method(self, e, op, ref, args, st):
        f = self.load(st, ref)
        if op == 'operator bool' and f.k == 'fun' and f.x and 'resolver' in f.x and '@custom' in st.store: return st.store['@custom']
        return super().fun_method(e, op, ref, args, st)
    def call_fun(self, f, args, st, e):
        if f.k == 'fun' and f.x and 'resolver' in f.x:
            self.oblige(st, self.truth(st, f).t, 'the resolver callback is set when it is called')
            q = self.val(args[0], st); out = self.lval(args[1], st); d = self.val(args[2], st)
            if d.k != 'ptr' or d.x['target'] != 'opaque': raise Unsupported('resolver data')
            self.ask(st, 'asked_custom', q.t)
            self.save(st, out, st.store['@rep_txt'])
            return st.store['@rep_ok']
        return super().call_fun(f, args, st, e)
    # ------------------------------------------------ libresolv
    def unmodelled(self, a):
        while a.get('c') and a['k'] in ('ImplicitCastExpr', 'CStyleCastExpr', 'ParenExpr') : a = a['c'][0]
        if a['k'] == 'UnaryOperator' and a['op'] == '&': a = a['c'][0]
        return a['k'] == 'MemberExpr' and strip(a['t']) == '__res_state'
    def f_memset(self, e, a, st):
        if self.unmodelled(a[0]): return V('unit', '()')
        p = self.val(a[0], st); c = self.val(a[1], st); n = self.val(a[2], st)
        if p.k == 'ptr' and p.x['target'] == 'obj': p = V('ptr', None, x={'target': 'buf', 'ref': p.x['ref'], 'off': mkint(0)})
        self.oblige(st, '(0 <= %s)' % n.t, 'memset length')
        self.write_buf(p, 'repeat_u8(%s, %s)' % (self.to_u8(c), n.t), n.t, st, 'memset'); return p
    def f___res_ninit(self, e, a, st):
        if not self.unmodelled(a[0]): raise Unsupported('res_ninit')
        return self.fresh(st, 'int', 'rc', 'int')
    f_res_ninit = f___res_ninit
    def f_res_nquery(self, e, a, st):
        if not self.unmodelled(a[0]): raise Unsupported('res_nquery')
        q = self.let(st, self.cstring(a[1], st), 'query'); cl = self.val(a[2], st); ty = self.val(a[3], st)
        self.oblige(st, '(%s == 1)' % cl.t, 'the query is of class IN'); self.oblige(st, '(%s == 16)' % ty.t, 'the query asks for TXT records')
        out = self.val(a[4], st); n = self.val(a[5], st); b = self.load(st, out.x['ref'])
        if out.k != 'ptr' or out.x['target'] != 'buf' or out.x['off'].c != 0: raise Unsupported('answer buffer')
        self.oblige(st, '(0 <= %s <= %s.len())' % (n.t, atom(b.t)), 'res_nquery writes within the buffer')
        if n.c != 65536 or b.k[2] != 65536: raise Unsupported('answer buffer of another size')
        self.ask(st, 'asked_dns', q.t)
        self.save(st, out.x['ref'], V(b.k, st.store['@ans'].t))
        return st.store['@ans_len']
    f___res_nquery = f_res_nquery
    def f_dn_skipname(self, e, a, st):
        p, q = self.val(a[0], st), self.val(a[1], st)
        if p.k != 'ptr' or q.k != 'ptr' or p.x['target'] != 'buf' or q.x['target'] != 'buf' or p.x['ref'] != q.x['ref']: raise Unsupported('dn_skipname')
        b = self.load(st, p.x['ref'])
        self.oblige(st, '(0 <= %s && %s <= %s.len())' % (p.x['off'].t, q.x['off'].t, atom(b.t)), 'dn_skipname reads within the buffer')
        r = self.let(st, V('int', 'skip_name(%s, %s, %s)' % (b.t, p.x['off'].t, q.x['off'].t), lo=-1, hi=65536), 'skip')
        st.hyp('(%s == -1 || (0 <= %s && %s + %s <= %s))' % (r.t, r.t, p.x['off'].t, r.t, q.x['off'].t))
        return r
    f___dn_skipname = f_dn_skipname
    def f_ntohs(self, e, a, st):
        v = self.val(a[0], st); return V('int', 'swap16(%s)' % v.t, lo=0, hi=65535)
    f_htons = f_ntohs
    def lval(self, e, st):
        if e['k'] == 'MemberExpr' and 'f' not in e:
            b = e['c'][0]
            if e['n'] in ('qdcount', 'ancount', 'nscount', 'arcount') and strip(b['t']) in ('HEADER *', 'HEADER'): raise NotLvalue()
        return super().lval(e, st)
    def hdr_field(self, e, st):
        b = e['c'][0]; r = self.deref(self.val(b, st), st) if e['arrow'] else self.lval(b, st)
        v = self.load(st, r)
        if vtype(v.k) != 'Seq<u8>' or not isinstance(v.k, tuple): raise Unsupported('packet header')
        o = {'qdcount': 4, 'ancount': 6, 'nscount': 8, 'arcount': 10}[e['n']]
        return V('int', 'le16(%s, %d)' % (v.t, o), lo=0, hi=65535)
    def e_MemberExpr(self, e, st):
        if e.get('n') in ('qdcount', 'ancount', 'nscount', 'arcount') and strip(e['c'][0]['t']) in ('HEADER *', 'HEADER'): return self.hdr_field(e, st)
        if e.get('n') == 'res_h_errno' and self.unmodelled(e['c'][0]) and '@herr' in st.store: return st.store['@herr']
        return super().e_MemberExpr(e, st)
    def e_cast(self, e, st):
        if e['ck'] == 'LValueToRValue':
            s = e['c'][0]
            while s['k'] == 'ParenExpr': s = s['c'][0]
            if s['k'] == 'MemberExpr' and s.get('n') in ('qdcount', 'ancount', 'nscount', 'arcount', 'res_h_errno'): return self.e_MemberExpr(s, st)
        return super().e_cast(e, st)
    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_cast
