"""Ownership of what is acquired outside the C++ object model: digest contexts, codec streams (BIOs), buffers of new[]/new/vasprintf, key objects.
Ghost multisets: '@mem' (contexts, streams, buffers this function holds), '@pkey' and '@rsa' (key objects it holds, by handle), '@gone' (RSA handles released).
Obligations: what is released is held; what is used is held; at every exit, normal or exceptional, nothing is held beyond what the object of a class in OWN owns."""
from engine import *
import execu
from execu import *
from lib import ALIAS
from vararg import ExecF
EMPTY = 'Multiset::<int>::empty()'
MS = ('mset',)
# class: (path of the owned RSA handle, path of the flag that says whether it is owned)
OWN = {'DKIM::PublicKey': (('m_publicKeyRSA',), None),
       'DKIM::AdditionalSignaturesOptions': (('m_privateKeyRSA',), ('m_privateKeyRSAFree',)),
       'DKIM::SignatoryOptions': (ALIAS[('DKIM::SignatoryOptions', 'm_privateKeyRSA')], ALIAS[('DKIM::SignatoryOptions', 'm_privateKeyRSAFree')])}
RES = 'DKIM::Util::Resolver'
CHAIN = re.compile(re.escape(EMPTY) + r'(\.insert\(\d+int\))*')
GHOSTS = ('@mem', '@pkey', '@rsa', '@gone', '@res')

class ExecR(ExecF):
    def setup_world(self, st, c):
        super().setup_world(st, c)
        self.ctx.own_ids = {}; self.ctx.managed = set(); self.ctx.own_n = 1000
        for g in GHOSTS[:4]: st.store[g] = V(MS, EMPTY); self.rtype[g] = 'ghost'
        f = self.callstack[0]
        st.store['@res'] = mkbool(f.get('cls') != RES or not f.get('ctor')); self.rtype['@res'] = 'bool'
    def own_entry(self, st, c):
        """what the object already holds when the function is entered"""
        f = self.callstack[0]; t = EMPTY
        if f.get('cls') in OWN and not f.get('ctor') and not f.get('static') and not f.get('const'): t = self.owned(st, Ref('this'), f['cls'], t)
        for p in f['params']:
            if strip(p['t']) == 'rsa_st *' and c.get('takes'): t = '(if %s { %s.insert(%s) } else { %s })' % (self.subst(c['takes'], lambda n, fl, tag: self.term_of(st, self.entry_env[n], fl)), t, self.load(st, self.entry_env[p['n']]).t, t)
        st.store['@rsa'] = V(MS, t); self.rsa0 = t
    def owned(self, st, ref, cls, t):
        h, fl = OWN[cls]; v = Ref(ref.root, ref.path + h); hv = self.load(st, v)
        if hv is None or hv.t is None: return t
        g = '%s != 0' % hv.t
        if fl: g = '%s && %s' % (g, self.load(st, Ref(ref.root, ref.path + fl)).t)
        return '(if %s { %s.insert(%s) } else { %s })' % (g, t, hv.t, t)
    # ------------------------------------------------ the ghost multisets
    def acquire_mem(self, st, root, cond=None):
        self.ctx.own_n += 1; i = self.ctx.own_n; self.ctx.own_ids[root] = i
        m = st.store.get('@mem')
        if m is None: return
        n = '%s.insert(%dint)' % (m.t, i); st.store['@mem'] = V(MS, n if cond is None else '(if %s { %s } else { %s })' % (cond, n, m.t))
    def live(self, st, root): return self.live_term(st, self.ctx.own_ids[root])
    def live_term(self, st, i):
        t = st.store['@mem'].t
        if CHAIN.fullmatch(t): return 'true' if '.insert(%dint)' % i in t else 'false'
        return '(%s.count(%dint) > 0)' % (t, i)
    def used(self, st, root):
        if root not in self.ctx.own_ids or root in self.ctx.managed or '@mem' not in st.store: return
        c = self.live(st, root)
        if c != 'true': self.oblige(st, c, 'what is used has not been released')
    def release_mem(self, st, root):
        if root not in self.ctx.own_ids: return
        i = self.ctx.own_ids[root]; c = self.live(st, root) if root not in self.ctx.managed else 'false'
        self.oblige(st, c, 'what is released is held')
        t = st.store['@mem'].t
        if CHAIN.fullmatch(t): t = t.replace('.insert(%dint)' % i, '')
        else: t = '%s.remove(%dint)' % (atom(t), i)
        st.store['@mem'] = self.mlet(st, t)
    def mlet(self, st, t):
        return V(MS, t) if len(t) < 400 else self.let(st, V(MS, t), 'held')
    def acquire(self, st, g, v):
        if g in st.store and v.c != 0: st.store[g] = self.mlet(st, '(if %s == 0 { %s } else { %s.insert(%s) })' % (v.t, st.store[g].t, atom(st.store[g].t), v.t))
        return v
    def release(self, st, g, v, what):
        if v.c == 0 or (v.k == 'ptr' and v.x['target'] == 'null'): return
        t = st.store[g].t
        self.oblige(st, '(%s == 0 || %s.count(%s) > 0)' % (v.t, atom(t), v.t), '%s releases a key object that is held' % what)
        st.store[g] = self.mlet(st, '(if %s == 0 { %s } else { %s.remove(%s) })' % (v.t, t, atom(t), v.t))
        if g == '@rsa': st.store['@gone'] = self.mlet(st, '%s.insert(%s)' % (st.store['@gone'].t, v.t))
    def key_used(self, st, v):
        if v.k == 'int' and st.store.get('@gone') is not None and st.store['@gone'].t != EMPTY: self.oblige(st, '(%s.count(%s) == 0 || %s.count(%s) > 0)' % (atom(st.store['@gone'].t), v.t, atom(st.store['@rsa'].t), v.t), 'the RSA key used has not been released')
    def pkey_used(self, st, v):
        self.oblige(st, '(%s == 0 || %s.count(%s) > 0)' % (v.t, atom(st.store['@pkey'].t), v.t), 'the key object used has not been released')
    # ------------------------------------------------ exits
    def own_exit(self, st, kind):
        f = self.callstack[0]; c = self.ctx.contract
        if st.store['@mem'].t != EMPTY or self.ctx.own_ids: self.oblige(st, '(%s =~= %s)' % (st.store['@mem'].t, EMPTY), '[C26] contexts, streams and buffers acquired have been released')
        if st.store['@pkey'].t != EMPTY: self.oblige(st, '(%s =~= %s)' % (st.store['@pkey'].t, EMPTY), '[C26] key objects acquired have been released')
        cls = f.get('cls'); obj = cls in OWN and not f.get('static') and not f.get('const')
        want = EMPTY if not obj or f.get('dtor') else self.owned(st, Ref('this'), cls, EMPTY)
        if st.store['@rsa'].t != want:
            cond = 'true'
            if c.get('own_if'): cond = self.subst(c['own_if'], lambda n, fl, tag: self.term_of(self.entry, self.entry_env[n], fl))
            self.oblige(st, t_implies(cond, '(%s =~= %s)' % (st.store['@rsa'].t, want)), '[C26] RSA keys acquired are released or owned by the object')
        if obj and not f.get('dtor') and st.store['@gone'].t != EMPTY:
            h, fl = OWN[cls]; v = self.load(st, Ref('this', h))
            self.oblige(st, '(%s == 0 || %s.count(%s) == 0 || %s.count(%s) > 0)' % (v.t, atom(st.store['@gone'].t), v.t, atom(st.store['@rsa'].t), v.t), 'the object does not keep a key released')
        if cls == RES and (f.get('ctor') or f.get('dtor')) and kind != 'throw': self.oblige(st, st.store['@res'].t if f.get('ctor') else b_not(st.store['@res']).t, '[C26] resolver state is acquired by the constructor and released by the destructor')
    # ------------------------------------------------ loops: an iteration releases what it acquires
    def loop_head(self, st, mod, u, s):
        return super().loop_head(st, {(r, p) for r, p in mod if r not in GHOSTS}, u, s)
    def loop_back_extra(self, pre, b, mod):
        for r, p in sorted(mod, key=str):
            if r in GHOSTS: self.oblige(b, '(%s %s %s)' % (b.store[r].t, '==' if r == '@res' else '=~=', pre.store[r].t), '[C26] an iteration releases what it acquires')
    # ------------------------------------------------ calls checked against contracts
    def contract_done(self, f, c, avals, st, env):
        super().contract_done(f, c, avals, st, env)
        cls = f.get('cls')
        if cls in OWN and 'this' in env and env['this'] == Ref('this') and self.callstack[0].get('cls') == cls and not f.get('const') and '@rsa' in st.store:
            # the callee may have released or replaced the key of this very object
            st.store['@rsa'] = V(MS, self.owned(st, Ref('this'), cls, EMPTY)); st.store['@gone'] = V(MS, EMPTY)
    # ------------------------------------------------ acquisition and release
    def new_expr(self, e, st):
        v = super().new_expr(e, st)
        root = v.x['ref'].root if v.x.get('target') == 'buf' else v.x.get('root')
        if root: self.acquire_mem(st, root); self.ctx.own_arr = getattr(self.ctx, 'own_arr', set()) | ({root} if e['array'] else set())
        return v
    def e_CXXDeleteExpr(self, e, st):
        p = self.val(e['c'][0], st)
        if p.k == 'ptr' and p.x['target'] == 'null': return V('unit', '()')
        root = p.x.get('root') if p.k == 'ptr' and p.x['target'] == 'new' else p.x['ref'].root if p.k == 'ptr' and p.x['target'] == 'buf' else None
        if root is None or root not in self.ctx.own_ids: raise Unsupported('delete')
        if p.x['target'] == 'buf' and p.x['off'].c != 0: self.oblige(st, '(%s == 0)' % p.x['off'].t, 'delete is given the start of the buffer')
        self.oblige(st, 'true' if bool(e.get('array')) == (root in getattr(self.ctx, 'own_arr', ())) else 'false', 'delete matches the form of new')
        self.release_mem(st, root); return V('unit', '()')
    def sp_from_ptr(self, mt, p, st):
        if p.k == 'ptr' and p.x['target'] == 'new' and p.x['root'] in self.ctx.own_ids and '@mem' in st.store: self.release_mem(st, p.x['root'])
        return super().sp_from_ptr(mt, p, st)
    def load(self, st, ref):
        if ref.root in getattr(self.ctx, 'own_ids', ()) and ref.root.startswith('heap'): self.used(st, ref.root)
        return super().load(st, ref)
    def alloc(self, st, kind, **fields):
        r = super().alloc(st, kind, **fields); self.acquire_mem(st, r.root); return r
    def md(self, a, st):
        r = super().md(a, st); self.used(st, r.root); return r
    def bio(self, a, st):
        x = super().bio(a, st); self.used(st, x['ref'].root); return x
    def f_EVP_MD_CTX_free(self, e, a, st):
        p = self.val(a[0], st)
        if p.k == 'ptr' and p.x['target'] == 'null': return V('unit', '()')
        if p.k != 'ptr' or p.x['target'] != 'md': raise Unsupported('digest context')
        self.release_mem(st, p.x['ref'].root); return V('unit', '()')
    f_EVP_MD_CTX_destroy = f_EVP_MD_CTX_free
    def bio_free(self, a, st, chain):
        p = self.val(a[0], st)
        if p.k == 'ptr' and p.x['target'] == 'null': return V('unit', '()')
        if p.k != 'ptr' or p.x['target'] != 'bio': raise Unsupported('BIO')
        x = p.x
        while True:
            root = x['ref'].root; self.release_mem(st, root); n = st.store.get(root + '#next')
            if n is None or not chain: break
            x = n.x
        return V('int', '1', 1)
    def f_BIO_free_all(self, e, a, st): self.bio_free(a, st, True); return V('unit', '()')
    def f_BIO_free(self, e, a, st): return self.bio_free(a, st, False)
    def f_BIO_vfree(self, e, a, st): self.bio_free(a, st, False); return V('unit', '()')
    def construct_more(self, e, t, args, st):
        v = super().construct_more(e, t, args, st)
        if v.k == 'uptr' and v.x.get('target') == 'md':
            root = v.x['ref'].root; d = self.val(args[1], st) if len(args) > 1 else None; p = V('ptr', None, x=v.x)
            if root in self.ctx.managed and not self.ctx.dry: pass
            self.ctx.dry += 1; s = st.fork(); n0 = len(self.throws)
            if d is None: self.struct_deleter(t, p, s)
            elif d.k == 'lam': self.call_value(d, [p], s)
            elif d.k == 'fn' and d.x.get('q', d.x.get('f', d.x.get('n'))) in ('EVP_MD_CTX_free', 'EVP_MD_CTX_destroy'): self.release_mem(s, root)
            else: raise Unsupported('deleter')
            self.ctx.dry -= 1
            if len(self.throws) != n0: raise Unsupported('deleter throws')
            # what the deleter releases is released with the unique_ptr at the latest
            st.store['@mem'] = s.store['@mem']; self.ctx.managed.add(root)
        return v
    def struct_deleter(self, t, p, s):
        cls = re.sub(r'^std::unique_ptr<evp_md_ctx_st,\s*(.*?)>?$', r'\1', t)
        fs = [f for f in self.prog.funcs.values() if f['f'] == cls + '::operator()']
        if len(fs) != 1: raise Unsupported('deleter')
        self.call_inline(fs[0], Ref('this'), [p], s)
    # ------------------------------------------------ key objects
    def f_d2i_PUBKEY(self, e, a, st): return self.acquire(st, '@pkey', super().f_d2i_PUBKEY(e, a, st))
    def f_d2i_RSAPrivateKey(self, e, a, st): return self.acquire(st, '@rsa', super().f_d2i_RSAPrivateKey(e, a, st))
    def f_PEM_read_bio_PrivateKey(self, e, a, st): return self.acquire(st, '@pkey', super().f_PEM_read_bio_PrivateKey(e, a, st))
    def f_EVP_PKEY_base_id(self, e, a, st): r = super().f_EVP_PKEY_base_id(e, a, st); self.pkey_used(st, self.val(a[0], st)); return r
    f_EVP_PKEY_get_base_id = f_EVP_PKEY_base_id
    def f_EVP_PKEY_get1_RSA(self, e, a, st): self.pkey_used(st, self.val(a[0], st)); return self.acquire(st, '@rsa', super().f_EVP_PKEY_get1_RSA(e, a, st))
    def f_EVP_PKEY_free(self, e, a, st): self.release(st, '@pkey', self.val(a[0], st), 'EVP_PKEY_free'); return V('unit', '()')
    def f_RSA_free(self, e, a, st): self.release(st, '@rsa', self.val(a[0], st), 'RSA_free'); return V('unit', '()')
    def f_RSA_size(self, e, a, st): self.key_used(st, self.val(a[0], st)); return super().f_RSA_size(e, a, st)
    def f_RSA_sign(self, e, a, st): self.key_used(st, self.val(a[5], st)); return super().f_RSA_sign(e, a, st)
    def f_RSA_verify(self, e, a, st): self.key_used(st, self.val(a[5], st)); return super().f_RSA_verify(e, a, st)
    # ------------------------------------------------ formatted text, resolver state
    def f_vasprintf(self, e, a, st):
        n = super().f_vasprintf(e, a, st); h = [k for k in st.store if k.startswith('@heap') or '_@heap' in k][-1]
        self.acquire_mem(st, h, st.store[h].t); return n
    def f_free(self, e, a, st):
        p = self.val(a[0], st); r = super().f_free(e, a, st)
        if p.k == 'ptr' and p.x.get('heap') in self.ctx.own_ids: self.release_mem(st, p.x['heap'])
        return r
    def f___res_ninit(self, e, a, st): r = super().f___res_ninit(e, a, st); st.store['@res'] = mkbool(True); return r
    f_res_ninit = f___res_ninit
    def f___res_nclose(self, e, a, st):
        if not self.unmodelled(a[0]): raise Unsupported('res_nclose')
        self.oblige(st, st.store['@res'].t, 'the resolver state released is held'); st.store['@res'] = mkbool(False); return V('unit', '()')
    f_res_nclose = f___res_nclose
