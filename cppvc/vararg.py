"""printf-style formatting: va_list, vasprintf, vsnprintf, free (assumed contracts on the C library).
`$va` is the text that formatting the function's own fmt with its own variadic arguments gives, `$vafail` whether the C library refuses to."""
from engine import *
from execu import *
from net import ExecN

class ExecF(ExecN):
    def setup_world(self, st, c):
        super().setup_world(st, c)
        if not c.get('vararg'): return
        st.store['@va'] = self.fresh(st, 'str', 'va'); st.store['@vafail'] = self.fresh(st, 'bool', 'vafail')
        st.hyp('(%s.len() < 2147483647)' % st.store['@va'].t)
    def world_env(self):
        d = super().world_env(); d.update(va=Ref('@va'), vafail=Ref('@vafail')); return d
    def lookup_var(self, act, name, st):
        if name in ('va', 'vafail') and '@' + name in st.store: return Ref('@' + name)
        return super().lookup_var(act, name, st)
    def param_special(self, st, p, mt, c):
        if c.get('vararg') and strip(p['t']) in ('const char *', 'char *'):
            s = self.fresh(st, 'str', p['n']); return V('ptr', None, x={'target': 'cstr', 's': s, 'off': mkint(0), 'fmt': True})
        return super().param_special(st, p, mt, c)
    # ------------------------------------------------ va_list: started, and not consumed yet
    def declare(self, v, st):
        if v['t'].startswith('__va_list_tag['):
            root = self.root_of(v['id'], v['n']); self.act.names.setdefault(v['n'], []).append(v['id'])
            self.act.env[v['id']] = Ref(root); self.rtype[root] = 'bool'; st.store[root] = mkbool(False); return
        return super().declare(v, st)
    def va(self, a, st):
        p = self.val(a, st)
        if p.k != 'ptr' or p.x['target'] != 'buf': raise Unsupported('va_list')
        r = p.x['ref']
        if st.store.get(r.root) is None or st.store[r.root].k != 'bool': raise Unsupported('va_list')
        return r
    def f___builtin_va_start(self, e, a, st):
        st.store[self.va(a[0], st).root] = mkbool(True); return V('unit', '()')
    def f___builtin_va_end(self, e, a, st):
        st.store[self.va(a[0], st).root] = mkbool(False); return V('unit', '()')
    def f___builtin_va_copy(self, e, a, st):
        st.store[self.va(a[0], st).root] = st.store[self.va(a[1], st).root]; return V('unit', '()')
    def formatted(self, fmt, ap, st):
        f = self.val(fmt, st); r = self.va(ap, st)
        if '@va' not in st.store or not (f.k == 'ptr' and f.x.get('fmt') and f.x['off'].c == 0): raise Unsupported('formatting of other text')
        self.oblige(st, st.store[r.root].t, 'the argument list is started and not consumed'); st.store[r.root] = mkbool(False)
        return st.store['@va']
    def refused(self, st):
        n = self.fresh(st, 'int', 'printed', 'int')
        st.hyp('(%s >= -1 && (%s == -1) == %s && (%s >= 0 ==> %s == %s.len()))' % (n.t, n.t, st.store['@vafail'].t, n.t, n.t, st.store['@va'].t)); return n
    def f_vasprintf(self, e, a, st):
        out = self.deref(self.val(a[0], st), st); t = self.formatted(a[1], a[2], st); n = self.refused(st)
        h = self.fresh_name('@heap'); st.store[h] = V('bool', '(%s >= 0)' % n.t)
        self.save(st, out, V('ptr', None, x={'target': 'cstr', 's': t, 'off': mkint(0), 'heap': h})); return n
    def f_vsnprintf(self, e, a, st):
        p = self.val(a[0], st); sz = self.val(a[1], st); t = self.formatted(a[2], a[3], st); n = self.refused(st)
        if p.k == 'ptr' and p.x['target'] == 'null': self.oblige(st, '(%s == 0)' % sz.t, 'vsnprintf writes within its buffer'); st.hyp('(%s >= 0)' % n.t); return n
        if p.k == 'ptr' and p.x['target'] == 'obj': p = V('ptr', None, x={'target': 'buf', 'ref': p.x['ref'], 'off': mkint(0)})
        if p.k != 'ptr' or p.x['target'] != 'buf': raise Unsupported('vsnprintf target')
        b = self.load(st, p.x['ref']); w = self.fresh(st, 'str', 'written')
        self.oblige(st, '(%s + %s <= %s.len())' % (p.x['off'].t, sz.t, atom(b.t)), 'vsnprintf writes within its buffer')
        st.hyp('(%s == printed_in(%s, %s))' % (w.t, st.store['@va'].t, sz.t))
        st.hyp('(0 <= %s.len() <= %s)' % (w.t, sz.t))
        st.hyp('(%s >= 0)' % n.t)      # assumed: vsnprintf itself does not fail
        self.write_buf(p, w.t, '(%s.len() as int)' % w.t, st, 'vsnprintf')
        st.add('hint', 'if (0 <= %s && %s + %s.len() <= %s.len()) { lemma_printed(%s, %s, %s, %s); }' % (p.x['off'].t, p.x['off'].t, w.t, atom(b.t), b.t, p.x['off'].t, st.store['@va'].t, sz.t), None)
        return n
    def f_free(self, e, a, st):
        p = self.val(a[0], st)
        if p.k == 'ptr' and p.x['target'] == 'null': return V('unit', '()')
        if not (p.k == 'ptr' and p.x.get('heap') and p.x['off'].c == 0): raise Unsupported('free')
        self.oblige(st, st.store[p.x['heap']].t, 'memory freed is allocated'); st.store[p.x['heap']] = mkbool(False); return V('unit', '()')
    def as_str(self, v, st):
        if v.k == 'ptr' and v.x['target'] == 'cstr' and v.x.get('heap'): self.oblige(st, st.store[v.x['heap']].t, 'memory read is allocated')
        if v.k == 'ptr' and v.x['target'] == 'buf':
            b = self.load(st, v.x['ref'])
            if vtype(b.k) == 'Seq<u8>':
                s = self.let(st, V('str', '%s.subrange(%s, %s.len() as int)' % (atom(b.t), v.x['off'].t, atom(b.t))), 'text')
                self.oblige(st, '(0 <= %s <= %s.len())' % (v.x['off'].t, atom(b.t)), 'pointer lies within its object')
                if not (b.k == 'str'): self.oblige(st, '(find_idx(%s, 0u8) < %s.len())' % (s.t, s.t), 'the text in the buffer is terminated')
                return V('str', 'cstr(%s)' % s.t)
        return super().as_str(v, st)
