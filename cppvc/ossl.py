"""Contracts assumed on OpenSSL, libsodium and the C library (file and network access excluded)."""
from engine import *
import execu
from execu import *
from expr import *
from stdm import *
from lib import *
for _h in ('bio_st *', 'void *', 'const void *'): execu.HANDLES.discard(_h)
NID = {'EVP_sha1': 64, 'EVP_sha256': 672}

class ExecO(ExecX):
    def setup_world(self, st, c):
        super().setup_world(st, c)
        st.store['@now'] = self.fresh(st, 'int', 'now', 'long'); self.rtype['@now'] = 'long'
    def world_env(self): return dict(super().world_env(), now=Ref('@now'))
    def lookup_var(self, act, name, st):
        if name == 'now': return Ref('@now')
        return super().lookup_var(act, name, st)
    def world_time(self, st): return st.store['@now']
    def term_of(self, st, ref, fields):
        if fields and ref.root in st.store:
            v = st.store[ref.root]
            if v is not None and not isinstance(v, (Ref, tuple)) and v.k in ('uptr', 'ptr') and isinstance(v.x, dict) and v.x.get('target') in ('md', 'bio'):
                t = self.pack(self.load(st, Ref(v.x['ref'].root + '#' + fields[0]))); return t if re.fullmatch(r'[\w.]+', t) else '(%s)' % t
        return super().term_of(st, ref, fields)
    # ------------------------------------------------ callees that deliver bytes to a consumer
    def contract_extra(self, f, c, avals, st, pre, env):
        for n, r in (('errno', '@errno'), ('now', '@now')):
            if r in st.store: env.setdefault(n, Ref(r))
        if c.get('sink'):
            root = self.fresh_name('sinkres')
            pre.store[root] = V('str', 'Seq::<u8>::empty()'); st.store[root] = self.fresh(st, 'str', 'delivered')
            env['sink'] = Ref(root)
    def contract_done(self, f, c, avals, st, env):
        if not c.get('sink'): return
        for p, a in zip(f['params'], avals):
            if isinstance(a, Ref): a = self.load(st, a)
            if a.k == 'fun': self.consume(a, st.store[env['sink'].root], st); return
            if a.k == 'lam': self.consume(a, st.store[env['sink'].root], st); return
        raise Unsupported('no consumer')
    def consume(self, fn, delivered, st):
        """effect of a consumer called with arbitrary chunks whose concatenation is `delivered`: it must append each chunk to one string and do nothing else"""
        if fn.k == 'fun' and fn.x and 'sink' in fn.x:
            k = fn.x['sink']; st.store[k] = self.let(st, V('str', '(%s + %s)' % (st.store[k].t, delivered.t)), 'sink'); return
        def once(s, chunk):
            c = V('ptr', None, x={'target': 'cstr', 's': chunk, 'off': mkint(0)})
            self.call_value(fn, [c, self.size_fact(s, chunk)], s)
        self.ctx.dry += 1; d = st.fork(); n0 = len(self.throws)
        once(d, self.fresh(d, 'str', 'chunk')); self.ctx.dry -= 1
        if len(self.throws) != n0 or d.hist == 'dead': raise Unsupported('consumer throws')
        mod = set()
        for r in st.store:
            if r in d.store: self.diff(r, (), st.store[r], d.store[r], mod)
        mod = sorted(mod, key=str)
        if len(mod) != 1: raise Unsupported('consumer changes %s' % (mod,))
        r, path = mod[0]; loc = Ref(r, path)
        if self.load(st, loc).k != 'str': raise Unsupported('consumer changes %s' % (mod,))
        # an arbitrary call
        g = st.fork(); old = self.fresh(g, 'str', 'before'); g.store[r] = self.set_path(g.store[r], path, old, g); ch = self.fresh(g, 'str', 'chunk')
        n0 = len(self.throws); once(g, ch)
        if len(self.throws) != n0: raise Unsupported('consumer throws')
        self.oblige(g, '(%s =~= %s + %s)' % (self.pack(self.load(g, loc)), old.t, ch.t), 'each chunk is appended to the digest input'); self.leaf(g, 'consumer')
        self.save(st, loc, V('str', '(%s + %s)' % (self.load(st, loc).t, delivered.t)))
    def call_value(self, fn, vals, st):
        if fn.k == 'fun' and fn.x and 'bind' in fn.x:
            f = self.prog.byid.get(fn.x['bind'].get('def')) or self.prog.byid.get(fn.x['bind'].get('id'))
            if f is None:
                fs = self.prog.byname.get(fn.x['bind'].get('q') or fn.x['bind'].get('f'), []); f = fs[0] if len(fs) == 1 else None
            if f is None: raise Unsupported('bound function')
            f = self.prog.funcs.get(f['key'], f)
            return self.call_inline(f, fn.x['this'], vals, st)
        if fn.k == 'lam':
            n = fn.x['node']; f = {'f': '<lambda>', 'params': n['params'], 'ret': n['ret'], 'body': n['body'], 'l': n['l']}
            act = Activation(f, None); act.lexical = fn.x['act']
            for cid, (nm, b) in fn.x['caps'].items(): act.env[cid] = b; act.names.setdefault(nm, []).append(cid)
            saved = self.act; self.act = act; self.callstack.append(f)
            try:
                for p, a in zip(f['params'], vals): self.bind_param(act, p, a, st)
                return self.run_body(f, act, st)
            finally: self.act = saved; self.callstack.pop()
        raise Unsupported('consumer %s' % (fn.k,))
    def f_std_bind(self, e, args, st):
        fn = self.val(args[0], st)
        if fn.k != 'fn' or len(args) < 2: raise Unsupported('std::bind')
        for i, a in enumerate(args[2:]):
            while a.get('k') != 'DeclRefExpr' and a.get('c'): a = a['c'][0]
            if a.get('q') != 'std::placeholders::_%d' % (i + 1): raise Unsupported('std::bind with bound values')
        return V('fun', None, x={'bind': fn.x, 'this': self.deref(self.val(args[1], st), st)})
    # ------------------------------------------------ heap objects
    def alloc(self, st, kind, **fields):
        root = self.fresh_name('@' + kind).replace('_' + kind, '@' + kind, 1); root = '@%s%s' % (kind, root.split('_')[-1])
        for n, v in fields.items(): st.store['%s#%s' % (root, n)] = v
        return Ref(root)
    def fld(self, ref, n): return Ref(ref.root + '#' + n)
    def construct_more(self, e, t, args, st):
        if t.startswith('std::unique_ptr<evp_md_ctx_st'):
            p = self.val(args[0], st)
            if p.k != 'ptr' or p.x['target'] != 'md': raise Unsupported('unique_ptr')
            return V('uptr', None, x=p.x)
        if t.startswith('std::_Bind') or t.startswith('std::function'): return self.val(args[0], st)
        return super().construct_more(e, t, args, st)
    def method_more(self, e, cls, op, ref, args, st):
        if cls.startswith('std::unique_ptr<evp_md_ctx_st') and op == 'get': return V('ptr', None, x=self.load(st, ref).x)
        return super().method_more(e, cls, op, ref, args, st)
    def truth(self, st, v):
        if v.k == 'ptr' and v.x.get('target') == 'handle': return V('bool', '(%s != 0)' % v.x['h'])
        return super().truth(st, v)
    # ------------------------------------------------ message digests
    def f_EVP_sha1(self, e, a, st): return mkint(64)
    def f_EVP_sha256(self, e, a, st): return mkint(672)
    def f_EVP_MD_CTX_new(self, e, a, st): return V('ptr', None, x={'target': 'md', 'ref': self.alloc(st, 'md', alg=mkint(0), data=lit_bytes([]))})
    f_EVP_MD_CTX_create = f_EVP_MD_CTX_new
    def f_EVP_MD_CTX_free(self, e, a, st): self.md(a[0], st); return V('unit', '()')
    f_EVP_MD_CTX_destroy = f_EVP_MD_CTX_free
    def md(self, a, st):
        p = self.val(a, st)
        if p.k != 'ptr' or p.x['target'] != 'md': raise Unsupported('digest context')
        return p.x['ref']
    def ok(self, st): return mkint(1)
    def f_EVP_DigestInit_ex(self, e, a, st):
        r = self.md(a[0], st); t = self.val(a[1], st)
        self.save(st, self.fld(r, 'alg'), t); self.save(st, self.fld(r, 'data'), lit_bytes([])); return self.ok(st)
    def f_EVP_DigestUpdate(self, e, a, st):
        r = self.md(a[0], st); b = self.ptr_range(self.val(a[1], st), self.val(a[2], st), st)
        self.digest_ready(r, st)
        d = self.load(st, self.fld(r, 'data')); self.save(st, self.fld(r, 'data'), V('str', '(%s + %s)' % (d.t, b.t)) if d.c != b'' else b); return self.ok(st)
    def digest_ready(self, r, st):
        al = self.load(st, self.fld(r, 'alg'))
        if al.c not in (64, 672): self.oblige(st, '(%s == 64 || %s == 672)' % (al.t, al.t), 'digest context is initialised')
        return al
    def f_EVP_DigestFinal_ex(self, e, a, st):
        r = self.md(a[0], st); al = self.digest_ready(r, st); d = self.load(st, self.fld(r, 'data'))
        v = self.let(st, V('str', 'digest(%s, %s)' % (al.t, d.t)), 'digest')
        st.hyp('(%s.len() == digest_len(%s))' % (v.t, al.t))
        self.write_buf(self.val(a[1], st), v.t, '(%s.len() as int)' % v.t, st, 'EVP_DigestFinal_ex')
        o = self.val(a[1], st)
        if o.x['target'] == 'buf': st.add('hint', 'assert(%s.subrange(%s, (%s + %s.len()) as int) =~= %s);' % (atom(self.load(st, o.x['ref']).t), o.x['off'].t, o.x['off'].t, v.t, v.t), None)
        lp = self.val(a[2], st)
        if not (lp.k == 'ptr' and lp.x['target'] == 'null'): self.save(st, self.deref(lp, st), V('int', '(%s.len() as int)' % v.t, lo=20, hi=32))
        self.save(st, self.fld(r, 'alg'), mkint(0)); return self.ok(st)
    def f_EVP_MD_CTX_copy(self, e, a, st):
        r = self.md(a[0], st); s = self.md(a[1], st)
        for n in ('alg', 'data'): self.save(st, self.fld(r, n), self.load(st, self.fld(s, n)))
        return self.ok(st)
    f_EVP_MD_CTX_copy_ex = f_EVP_MD_CTX_copy
    # ------------------------------------------------ signatures
    def f_RSA_verify(self, e, a, st):
        nid = self.val(a[0], st); m = self.ptr_range(self.val(a[1], st), self.val(a[2], st), st); s = self.ptr_range(self.val(a[3], st), self.val(a[4], st), st); k = self.val(a[5], st)
        self.oblige(st, '(%s != 0)' % k.t, 'RSA_verify is given a key')
        return self.outcome(st, '==', 1, 'rsa_verify(%s, %s, %s, %s)' % (k.t, nid.t, m.t, s.t))
    def f_crypto_sign_verify_detached(self, e, a, st):
        s = self.ptr_range(self.val(a[0], st), mkint(64), st, True); m = self.ptr_range(self.val(a[1], st), self.val(a[2], st), st); k = self.ptr_range(self.val(a[3], st), mkint(32), st, True)
        return self.outcome(st, '==', 0, 'ed25519_verify(%s, %s, %s)' % (k.t, m.t, s.t))
    def outcome(self, st, op, val, cond):
        """status code: equals val exactly when cond holds"""
        r = self.fresh(st, 'int', 'rc', 'int'); st.hyp('((%s %s %d) == %s)' % (r.t, op, val, cond)); return r
    def ptr_range(self, p, n, st, exact=False):
        if exact and p.k == 'ptr' and p.x['target'] == 'cstr':
            self.oblige(st, '(%s + %s <= %s.len())' % (p.x['off'].t, n.t, atom(p.x['s'].t)), 'the string holds the bytes read')
        return super().ptr_range(p, n, st)
    def f_RSA_size(self, e, a, st):
        k = self.val(a[0], st); self.oblige(st, '(%s != 0)' % k.t, 'RSA_size is given a key')
        v = V('int', 'rsa_size(%s)' % k.t, lo=1, hi=2**20); st.hyp('(1 <= %s <= %d)' % (v.t, 2**20)); return v
    def f_RSA_sign(self, e, a, st):
        nid = self.val(a[0], st); m = self.ptr_range(self.val(a[1], st), self.val(a[2], st), st); out = self.val(a[3], st); lp = self.deref(self.val(a[4], st), st); k = self.val(a[5], st)
        self.oblige(st, '(%s != 0)' % k.t, 'RSA_sign is given a key')
        r = self.outcome(st, '==', 1, 'rsa_sign_ok(%s, %s, %s)' % (k.t, nid.t, m.t))
        v = self.let(st, V('str', '(if %s == 1 { rsa_sign(%s, %s, %s) } else { Seq::<u8>::empty() })' % (r.t, k.t, nid.t, m.t)), 'signature')
        st.hyp('(%s.len() <= rsa_size(%s))' % (v.t, k.t)); st.hyp('(1 <= rsa_size(%s) <= %d)' % (k.t, 2**20))
        b = self.load(st, out.x['ref']); self.oblige(st, '(%s + rsa_size(%s) <= %s.len())' % (out.x['off'].t, k.t, atom(b.t)), 'RSA_sign writes within the buffer')
        self.write_buf(out, v.t, '(%s.len() as int)' % v.t, st, 'RSA_sign')
        self.save(st, lp, V('int', '(%s.len() as int)' % v.t, lo=0, hi=2**20)); return r
    def f_crypto_sign_detached(self, e, a, st):
        out = self.val(a[0], st); lp = self.val(a[1], st); m = self.ptr_range(self.val(a[2], st), self.val(a[3], st), st); k = self.ptr_range(self.val(a[4], st), mkint(64), st, True)
        if not (lp.k == 'ptr' and lp.x['target'] == 'null'): raise Unsupported('crypto_sign_detached length')
        r = self.outcome(st, '==', 0, 'ed25519_sign_ok(%s, %s)' % (k.t, m.t))
        n = self.fresh(st, 'str', 'signature'); st.hyp('(%s.len() == 64 && (%s == 0 ==> %s == ed25519_sign(%s, %s)))' % (n.t, r.t, n.t, k.t, m.t))
        self.write_buf(out, n.t, '64', st, 'crypto_sign_detached'); return r
    # ------------------------------------------------ keys
    def f_d2i_PUBKEY(self, e, a, st):
        n = self.val(a[0], st); pp = self.deref(self.val(a[1], st), st); ln = self.val(a[2], st); p = self.load(st, pp)
        if not (n.k == 'ptr' and n.x['target'] == 'null') and n.c != 0: raise Unsupported('d2i_PUBKEY reuse')
        b = self.ptr_range(p, ln, st)
        return V('int', 'pubkey_of_der(%s)' % b.t)
    def f_d2i_RSAPrivateKey(self, e, a, st):
        n = self.val(a[0], st); pp = self.deref(self.val(a[1], st), st); ln = self.val(a[2], st); p = self.load(st, pp)
        if not (n.k == 'ptr' and n.x['target'] == 'null') and n.c != 0: raise Unsupported('d2i_RSAPrivateKey reuse')
        b = self.ptr_range(p, ln, st)
        return V('int', 'rsapriv_of_der(%s)' % b.t)
    def f_PEM_read_bio_PrivateKey(self, e, a, st):
        b = self.bio(a[0], st)
        if b['kind'] != 2: raise Unsupported('PEM_read_bio_PrivateKey')
        d = self.load(st, self.fld(b['ref'], 'data')); v = V('int', 'pem_pkey(%s)' % atom(d.t))
        self.save(st, self.fld(b['ref'], 'data'), self.fresh(st, 'str', 'rest')); return v
    def f_crypto_sign_seed_keypair(self, e, a, st):
        pk = self.val(a[0], st); sk = self.val(a[1], st); s = self.ptr_range(self.val(a[2], st), mkint(32), st, True)
        p = self.fresh(st, 'str', 'public'); st.hyp('(%s.len() == 32)' % p.t); self.write_buf(pk, p.t, '32', st, 'crypto_sign_seed_keypair')
        k = self.let(st, V('str', 'ed25519_sk_of_seed(%s)' % atom(s.t)), 'secret'); st.hyp('(%s.len() == 64)' % k.t); self.write_buf(sk, k.t, '64', st, 'crypto_sign_seed_keypair')
        return mkint(0)
    def f_EVP_PKEY_base_id(self, e, a, st):
        k = self.val(a[0], st); self.oblige(st, '(%s != 0)' % k.t, 'EVP_PKEY_base_id is given a key'); return self.ranged(st, 'pkey_type(%s)' % k.t)
    f_EVP_PKEY_get_base_id = f_EVP_PKEY_base_id
    def ranged(self, st, t, ct='int'):
        lo, hi = INT_RANGES[ct]; v = self.let(st, V('int', t, lo=lo, hi=hi), 'v'); st.hyp('(%d <= %s <= %d)' % (lo, v.t, hi)); return v
    def f_EVP_PKEY_get1_RSA(self, e, a, st):
        k = self.val(a[0], st); self.oblige(st, '(%s != 0)' % k.t, 'EVP_PKEY_get1_RSA is given a key')
        v = V('int', 'rsa_of(%s)' % k.t); st.hyp('((pkey_type(%s) == 6 || pkey_type(%s) == 19) ==> %s != 0)' % (k.t, k.t, v.t)); return v
    def f_EVP_PKEY_free(self, e, a, st): self.val(a[0], st); return V('unit', '()')
    def f_RSA_free(self, e, a, st): self.val(a[0], st); return V('unit', '()')
    # ------------------------------------------------ BIOs
    def f_BIO_f_base64(self, e, a, st): return mkint(1)
    def f_BIO_s_mem(self, e, a, st): return mkint(2)
    def bio(self, a, st):
        p = self.val(a, st)
        if p.k != 'ptr' or p.x['target'] != 'bio': raise Unsupported('BIO')
        return p.x
    def f_BIO_new(self, e, a, st):
        k = self.val(a[0], st).c
        if k == 1: r = self.alloc(st, 'bio', nonl=mkbool(False), buf=lit_bytes([]), got=lit_bytes([]), started=mkbool(False))
        elif k == 2: r = self.alloc(st, 'bio', data=lit_bytes([]))
        else: raise Unsupported('BIO_new')
        return V('ptr', None, x={'target': 'bio', 'ref': r, 'kind': k})
    def f_BIO_set_flags(self, e, a, st):
        b = self.bio(a[0], st); fl = self.val(a[1], st)
        if b['kind'] == 1 and fl.c is not None and fl.c & 0x100: self.save(st, self.fld(b['ref'], 'nonl'), mkbool(True))
        elif b['kind'] == 2 and fl.c == 0x100: pass
        else: raise Unsupported('BIO_set_flags')
        return V('unit', '()')
    def f_BIO_push(self, e, a, st):
        x = self.bio(a[0], st); y = self.bio(a[1], st)
        if x['kind'] != 1 or y['kind'] != 2: raise Unsupported('BIO_push')
        st.store[x['ref'].root + '#next'] = V('ptr', None, x=y); return V('ptr', None, x=x)
    def next(self, b, st):
        n = st.store.get(b['ref'].root + '#next')
        if n is None: raise Unsupported('BIO without a sink')
        return n.x
    def f_BIO_write(self, e, a, st):
        b = self.bio(a[0], st); n = self.val(a[2], st); d = self.ptr_range(self.val(a[1], st), n, st)
        self.oblige(st, '(0 <= %s)' % n.t, 'BIO_write length is not negative')
        f = 'data' if b['kind'] == 2 else 'buf'
        if b['kind'] == 1 and st.store[b['ref'].root + '#started'].c is not False: raise Unsupported('write after read')
        o = self.load(st, self.fld(b['ref'], f)); self.save(st, self.fld(b['ref'], f), d if o.c == b'' else V('str', '(%s + %s)' % (o.t, d.t)))
        return n
    def f_BIO_ctrl(self, e, a, st):
        b = self.bio(a[0], st)
        if self.val(a[1], st).c != 11: raise Unsupported('BIO_ctrl')
        if b['kind'] == 1:      # flush: the encoding of everything written goes to the memory BIO
            n = self.next(b, st)['ref']; o = self.load(st, self.fld(n, 'data')); u = self.load(st, self.fld(b['ref'], 'buf')); nl = self.load(st, self.fld(b['ref'], 'nonl'))
            t = 'bio_b64_enc(%s, %s)' % (u.t, nl.t)
            self.save(st, self.fld(n, 'data'), V('str', t if o.c == b'' else '(%s + %s)' % (o.t, t))); self.save(st, self.fld(b['ref'], 'buf'), lit_bytes([]))
        return mkint(1)
    def f_BIO_read(self, e, a, st):
        b = self.bio(a[0], st); p = self.val(a[1], st); n = self.val(a[2], st)
        v = self.load(st, p.x['ref']); self.oblige(st, '(0 <= %s && %s + %s <= %s.len())' % (p.x['off'].t, p.x['off'].t, n.t, atom(v.t)), 'BIO_read fits the buffer')
        r = self.fresh(st, 'int', 'r', 'int')
        if b['kind'] == 2:
            d = self.load(st, self.fld(b['ref'], 'data'))
            st.hyp('(if %s.len() == 0 || %s <= 0 { %s <= 0 } else { 1 <= %s <= %s && %s <= %s.len() })' % (atom(d.t), n.t, r.t, r.t, n.t, r.t, atom(d.t)))
            c = '(if %s > 0 { %s.subrange(0, %s) } else { Seq::<u8>::empty() })' % (r.t, atom(d.t), r.t)
            self.save(st, p.x['ref'], V(v.k, 'buf_write(%s, %s, %s)' % (v.t, p.x['off'].t, c)))
            self.save(st, self.fld(b['ref'], 'data'), V('str', '(if %s > 0 { %s.subrange(%s, %s.len() as int) } else { %s })' % (r.t, atom(d.t), r.t, atom(d.t), d.t)))
            return r
        m = self.load(st, self.fld(self.next(b, st)['ref'], 'data')); g = self.load(st, self.fld(b['ref'], 'got')); nl = self.load(st, self.fld(b['ref'], 'nonl'))
        D = self.let(st, V('str', 'bio_b64_dec(%s, %s)' % (m.t, nl.t)), 'decoded')
        st.hyp('(if %s.len() >= %s.len() || %s <= 0 { %s <= 0 } else { 1 <= %s <= %s && %s.len() + %s <= %s.len() })' % (atom(g.t), D.t, n.t, r.t, r.t, n.t, atom(g.t), r.t, D.t))
        c = self.let(st, V('str', '(if %s > 0 { %s.subrange(%s.len() as int, %s.len() + %s) } else { Seq::<u8>::empty() })' % (r.t, D.t, atom(g.t), atom(g.t), r.t)), 'chunk')
        self.save(st, p.x['ref'], V(v.k, 'buf_write(%s, %s, %s)' % (v.t, p.x['off'].t, c.t)))
        self.save(st, self.fld(b['ref'], 'got'), V('str', '(%s + %s)' % (g.t, c.t)))
        return r
    def f_BIO_free_all(self, e, a, st): self.bio(a[0], st); return V('unit', '()')
    f_BIO_free = f_BIO_free_all
    # ------------------------------------------------ C library
    def f_strcasecmp(self, e, a, st):
        x = self.let(st, self.cstring(a[0], st), 's'); y = self.cstring(a[1], st)
        st.add('hint', 'lemma_str_compare(lower_seq(%s), lower_seq(%s));' % (x.t, y.t), None)
        return self.ranged(st, 'str_compare(lower_seq(%s), lower_seq(%s))' % (x.t, y.t))
    def f_memcmp(self, e, a, st):
        n = self.val(a[2], st); x = self.ptr_range(self.val(a[0], st), n, st); y = self.ptr_range(self.val(a[1], st), n, st)
        st.add('hint', 'lemma_str_compare(%s, %s);' % (x.t, y.t), None)
        return self.ranged(st, 'str_compare(%s, %s)' % (x.t, y.t))
    def strtonum(self, e, args, st, fn, lo, hi):
        end = self.val(args[1], st)
        if end.k == 'ptr' and end.x['target'] == 'obj' and 'off' not in end.x:
            s = self.let(st, self.cstring(args[0], st), 'numeral'); p = self.val(args[0], st); base = self.val(args[2], st)
            if base.c not in (10, 16): raise Unsupported(fn)
            off = self.let(st, V('int', 'num_stop(%s, %d)' % (s.t, base.c)), 'stop'); st.hyp('(0 <= %s <= %s.len())' % (off.t, s.t))
            st.store[end.x['ref'].root] = V('ptr', None, x={'target': 'cstr', 's': s, 'off': off})
            return self.strtonum1(s, base, st, fn, lo, hi)
        return super().strtonum(e, args, st, fn, lo, hi)
    def strtonum1(self, s, base, st, fn, lo, hi):
        v = self.let(st, V('int', '%s_val(%s, %d)' % (fn, s.t, base.c), lo=lo, hi=hi), 'num'); st.hyp('(%d <= %s <= %d)' % (lo, v.t, hi))
        st.store['@errno'] = self.let(st, V('int', '(if %s_overflow(%s, %d) { 34int } else { %s })' % (fn, s.t, base.c, st.store['@errno'].t), lo=-2**31, hi=2**31 - 1), 'errno')
        return v
