"""Verification of one function against its contract: builds the VC text."""
from engine import *
from execu import *
from expr import *
from stdm import *
from lib import *
from ossl import ExecO
from vararg import ExecF

def apply_cut(ch):
    """forget how the state at the last `cut` came about: what is known of it afterwards are the facts proved there (only hypotheses are dropped)"""
    cs = [i for i, nd in enumerate(ch) if nd.kind == 'cut']
    if not cs: return ch
    i = cs[-1]; e = [j for j, nd in enumerate(ch) if nd.kind == 'entry']
    known = {nd.a for nd in ch[:e[0] if e else 0] if nd.kind == 'fresh'}
    names = {nd.a for nd in ch if nd.kind in ('fresh', 'let')}
    pure = lambda t: all(w in known for w in re.findall(r'[A-Za-z_]\w*', t) if w in names)
    out = []
    for nd in ch[:i]:
        if nd.kind == 'fresh': out.append(nd)
        elif nd.kind == 'let':
            if nd.b[0] in ('int', 'bool') and len(nd.b[1]) < 160 and pure(nd.b[1]): out.append(nd); known.add(nd.a)
            else: out.append(Node(None, 'fresh', nd.a, nd.b[0]))
        elif nd.kind == 'hyp' and pure(nd.a): out.append(nd)
    return out + [Node(None, 'hyp', t, False) for t in ch[i].a] + ch[i + 1:]

def balanced(t):
    d = 0
    for c in t:
        if c == '(': d += 1
        if c == ')': d -= 1
        if d < 0: return False
    return d == 0

def f_ctor_alias(f): return f.get('ctor') and any(r == f.get('cls') for r, _ in ALIAS)
class Unit:
    def __init__(self, prog, contracts, key, Exec_cls=None):
        self.prog = prog; self.contracts = contracts; self.key = key
        fs = [prog.funcs[key]] if key in prog.funcs else prog.byname.get(key, [])
        if len(fs) != 1: raise Unsupported('function %s: %d definitions' % (key, len(fs)))
        self.f = fs[0]; self.c = contracts[key]
        self.cls = Exec_cls or ExecF; self.dropped = frozenset(); self.align = None; self.only = None; self.nloops = (0, 0)
    def generate(self):
        f, c = self.f, self.c
        ctx = Ctx(self.prog, self.contracts); self.ctx = ctx
        ctx.contract = c
        x = self.cls(ctx); x.rtype = {}; x.unit_key = self.key; ctx.unit_key = self.key
        ctx.loop_ids = None
        self.x = x
        st = State({}, None)
        act = Activation(f, None); x.act = act; x.callstack = [f]
        entry_env = {}
        this = None
        if f.get('cls') and not f.get('static'):
            st.store['this'] = None; this = Ref('this'); act.this = this; x.rtype['this'] = f['cls']
            if f.get('ctor'):
                st.store['this'] = V(('rec', f['cls']), None, x=Rec(f['cls'], None, {fl['n']: None for fl in x.fields(f['cls']) if self.modelled(x, fl)}))
            else:
                st.store['this'] = x.fresh(st, ('rec', f['cls']), 'this')
            entry_env['this'] = this
        x.setup_world(st, c)
        for i, p in enumerate(f['params']):
            act.names.setdefault(p['n'], []).append(p['id'])
            mt = x.mtype(p['t'])
            root = '%s#%s' % (p['n'], p['id'])
            if mt in ('fun', 'ptr', 'iter'): v = x.param_special(st, p, mt, c)
            else: v = x.fresh(st, mt, p['n'], p['t'])
            if v.k == ('opt',) or (isinstance(v.k, tuple) and v.k[0] == 'opt' and v.x is None): v = V(v.k, v.t, x={'copied': True}) if not p['t'].rstrip().endswith('&') else v
            st.store[root] = v; x.rtype[root] = p['t']
            act.env[p['id']] = Ref(root); entry_env[p['n']] = Ref(root)
            if i < len(c.get('params', [])) and c['params'][i] != p['n']:
                if p['n'] + '_of' in getattr(x, 'iterof', {}): x.iterof[c['params'][i] + '_of'] = x.iterof[p['n'] + '_of']
                entry_env[c['params'][i]] = Ref(root); act.names.setdefault(c['params'][i], []).append(p['id'])
        for n, r in list(x.world_env().items()) + list(getattr(x, 'iterof', {}).items()): entry_env[n] = r
        st.add('entry'); x.entry = st.fork(); x.entry_env = entry_env
        look0 = lambda name, fields, tag: x.term_of(x.entry, entry_env[name], fields) if name in entry_env else self.bad(name)
        for r in c.get('requires', []): st.hyp(x.subst(r, look0))
        for r in c.get('facts', []): st.hyp(x.subst(r, look0))
        x.unit_measure = x.subst(c['dec'], look0) if c.get('dec') else None
        for h in c.get('entry_hints', []): st.add('hint', x.subst(h, look0), None)
        ctx.loop_ids = x.loop_ordinals(f); ctx.loop_anns = list(c.get('loops', [])); self.nloops = (len(ctx.loop_ids), len(ctx.loop_anns))
        if self.only: ctx.loop_anns = [{'dec': '0int'} for _ in ctx.loop_ids]; self.nloops = (0, 0)
        elif self.align is not None: ctx.loop_anns = [ctx.loop_anns[a] if a is not None else {} for a in self.align]
        if f.get('ctor'):
            inits = {i['m']: i for i in f.get('inits', []) if 'm' in i}
            for fld in x.fields(f['cls']):
                i = inits.get(fld['n']); ie = i['e'] if i else None
                x.init_field(st, this, fld, ie)
        outs = x.exec_stmt(f['body'], st)
        npost = 0
        for kind, s, payload in outs:
            if kind == 'throw': self.check_throw(x, s, payload, look0)
            elif kind in ('return', 'next'):
                if kind == 'next' and strip(f['ret']) != 'void' and not f.get('ctor'): 
                    x.line = f['el']; x.oblige(s, 'false', 'control does not reach the end of a value-returning function'); x.leaf(s, 'fall'); continue
                self.check_post(x, s, payload, entry_env, look0); npost += 1
            else: raise Unsupported('stray %s' % kind)
        return self.emit(ctx)
    def modelled(self, x, fl):
        try: mt = x.mtype(fl['t'])
        except Unsupported: return False
        return mt not in ('iter', 'lam', 'uptr', 'fun')
    def bad(self, n): raise Unsupported('contract variable %s not found' % n)
    def check_throw(self, x, s, exc, look0):
        c = self.c; x.line = exc.get('line', 0)
        if c.get('throws_by') is not None:
            cond = c['throws_by'].get(exc['cls'])
            for h in c.get('throw_hints', []): x.soft_hint(s, h, self.looks(x, s, None))
            x.oblige(s, x.subst(cond, look0) if cond else 'false', '%s raised only when the contract says so' % exc['cls'].split('::')[-1])
            for t in c.get('throw_ensures', []): tag, t = untag(t); x.oblige(s, x.subst(t, self.looks(x, s, None)), tag + 'state when an exception is raised')
            self.check_shared(x, s); x.leaf(s, 'throw'); return
        if c.get('throws') is None:
            x.oblige(s, 'false', 'no exception (%s) is raised' % exc['cls']); self.check_shared(x, s); x.leaf(s, 'throw'); return
        if exc['cls'] != c.get('exc', 'DKIM::PermanentError') and exc['cls'] not in c.get('also_exc', []):
            x.oblige(s, 'false', 'exception %s is of the documented class' % exc['cls'])
        elif c['throws'] != '?':
            for h in c.get('throw_hints', []): x.soft_hint(s, h, self.looks(x, s, None))
            x.oblige(s, x.subst(c['throws'], look0), (c.get('throws_tag') and '[%s] ' % c['throws_tag'] or '') + 'exception raised only when the contract says so')
        if c.get('throw_class') is not None and exc.get('ar') is not None:
            x.oblige(s, '(%s == %s)' % (exc['ar'].t, x.subst(str(c['throw_class']), look0)), 'exception carries the contracted class')
        for t in c.get('throw_ensures', []): tag, t = untag(t); x.oblige(s, x.subst(t, self.looks(x, s, None)), tag + 'state when an exception is raised')
        self.check_shared(x, s); x.leaf(s, 'throw')
    def looks(self, x, s, res):
        def g(name, fields, tag):
            if name == 'result':
                return x.pack(res) + ''.join('.' + q for q in fields) if re.fullmatch(r'[\w.]+', x.pack(res)) else atom(x.pack(res)) + ''.join('.' + q for q in fields)
            if name not in x.entry_env: return x.term_of(s, x.lookup_var(x.act, name, s), fields)
            return x.term_of(x.entry if tag == '0' else s, x.entry_env[name], fields)
        return g
    def check_post(self, x, s, val, env, look0):
        c = self.c; x.line = self.f['el']
        res = None
        if val is not None:
            res = x.rvalue(val, s)
            if res.k not in ('ptr',) : 
                if res.t is None or len(res.t) > 30: res = V(res.k, x.pack(res))
                res = x.let(s, res, 'result') if res.c is None else res
        lk = self.looks(x, s, res)
        for h in c.get('exit_hints', []): s.add('hint', x.subst(h, lk), None)
        if c.get('throws') not in (None, '?'):
            for tag, t in c.get('throws_parts') or [(c.get('throws_tag', ''), c['throws'])]:
                x.oblige(s, '!' + atom(x.subst(t, look0)), (tag and '[%s] ' % tag) + 'normal return only when the contract allows it')
        for cls, cond in (c.get('throws_by') or {}).items(): x.oblige(s, '!' + atom(x.subst(cond, look0)), 'normal return only when no %s is due' % cls.split('::')[-1])
        if 'result' in c and res is not None:
            t = x.subst(c['result'], lk); eq = '=~=' if res.k == 'str' or (isinstance(res.k, tuple) and res.k[0] in ('seq', 'map')) else '=='
            x.oblige(s, '(%s %s %s)' % (res.t, eq, t), 'result')
        if 'result_loc' in c:
            m = re.fullmatch(r'(.*?)\.\[(.*)\]', c['result_loc']); want = (m.group(1) if m else c['result_loc']).split('.')
            r = env[want[0]].sub(*want[1:])
            ok = val is not None and val.k == 'lref' and val.x.root == r.root
            if m:
                ok = ok and val.x.path[:-1] == r.path and isinstance(val.x.path[-1], tuple) and val.x.path[-1][0] == 'idx'
                x.oblige(s, '(%s == %s)' % (val.x.path[-1][1], x.subst(m.group(2), lk)) if ok else 'false', 'the reference returned denotes %s' % c['result_loc'])
            else: x.oblige(s, '(%s == %s)' % (x.pack(x.load(s, val.x)), x.pack(x.load(s, r))) if ok and val.x.path == r.path else 'false', 'the reference returned denotes %s' % c['result_loc'])
        if f_ctor_alias(self.f):
            for (rn, m), path in ALIAS.items():
                if rn == self.f['cls']:
                    v = x.unpack(s.store['this']).f.get(m)
                    x.oblige(s, 'true' if v is not None and v.k == 'ptr' and v.x.get('target') == 'obj' and v.x['ref'] == Ref('this', path) else 'false', 'member %s points into the first signature' % m)
        for loc, t in c.get('post', {}).items():
            parts = loc.split('.'); cur = x.term_of(s, env[parts[0]], parts[1:])
            v = x.load(s, env[parts[0]].sub(*parts[1:]))
            eq = '=~=' if v.k == 'str' or (isinstance(v.k, tuple) and v.k[0] in ('seq', 'map')) else '=='
            x.oblige(s, '(%s %s %s)' % (cur, eq, x.subst(t, look0)), 'final value of %s' % loc)
        for i, t in enumerate(c.get('ensures', [])):
            tag, t = untag(t); x.oblige(s, x.subst(t, lk), tag + 'postcondition %d' % (i + 1))
        for k, fl in s.store.items():
            if k.startswith('@shared:') and k[8:].split('.')[0] in [r.root for r in env.values()]:
                x.oblige(s, t_or(b_not(fl).t, x.subst(c.get('shared_ok', 'false'), lk)), 'an object handed over is not kept for modification')
        # frame
        f = self.f
        if env.get('this') is not None and not f.get('ctor'):
            if f.get('const'): fr = [()]
            if 'modifies' in c and not f.get('const'):
                keep = [m.split('.')[1] for m in c['modifies'] if m.startswith('this.')]
                if 'this' not in c['modifies']:
                    a, b = x.unpack(s.store['this']), x.unpack(x.entry.store['this'])
                    for n in a.f:
                        if n not in keep and a.f[n] is not None and a.f[n].k != 'ptr':
                            ta, tb = x.pack(a.f[n]), x.pack(b.f[n])
                            if ta != tb: x.oblige(s, '(%s == %s)' % (ta, tb), 'field %s is not modified' % n)
        self.check_shared(x, s); x.leaf(s, 'return')
    def check_shared(self, x, s):
        if self.only: x.oblige(s, '(%s == 0int)' % s.store['@shared'].t, '[C25] no object of static storage duration is written')
    # ------------------------------------------------------------ emission
    def emit(self, ctx):
        mod = re.sub(r'\W+', '_', self.key)
        out = []; info = []      # info: (line number relative to out, oblig)
        n = 0; seen = set(); shown = {}; self.hints = {}
        work = list(ctx.leaves); work.reverse(); chunk = self.c.get('chunk', 0)
        while work:
            hist, why = work.pop()
            ch = chain_to(hist)
            if self.only: ch = [nd for nd in ch if not (nd.kind == 'hint' or nd.kind == 'cut' or nd.kind == 'obl' and not re.match(self.only, nd.b.desc))]
            # skip leaves that bring no new obligation
            if not any(nd.kind == 'obl' and (nd.b, nd.a) not in seen for nd in ch): continue
            last = max(i for i, nd in enumerate(ch) if nd.kind == 'obl' and (nd.b, nd.a) not in seen)
            if chunk:      # at most `chunk` new claims per VC; the rest of the path follows in further ones
                new = [i for i, nd in enumerate(ch) if (nd.kind == 'obl' and (nd.b, nd.a) not in seen) or (nd.kind == 'hint' and 'assert' in nd.a and id(nd) not in shown)]
                w = 0
                for i in new:
                    w += 4 if ch[i].kind == 'hint' else 1
                    if w >= chunk and i < last: last = i; work.append((hist, why)); break
            ch = apply_cut(ch[:last + 1])
            params = ['%s: %s' % (nd.a, nd.b) for nd in ch if nd.kind == 'fresh']
            n += 1
            out.append('proof fn vc_%s_%d(%s)' % (mod, n, ', '.join(params)))
            out.append('{')
            for nd in ch:
                if nd.kind == 'let': out.append('    let %s: %s = %s;' % (nd.a, nd.b[0], nd.b[1]))
                elif nd.kind == 'hyp': out.append('    if !(%s) { return; }' % nd.a)
                elif nd.kind == 'hint':
                    if (nd.a, nd.b) in self.dropped: continue
                    self.hints[len(out) + 1] = (nd.a, nd.b)
                    m = re.fullmatch(r'assert\(([^;]*)\);', nd.a) if id(nd) in shown else None
                    shown[id(nd)] = nd
                    if m and balanced(m.group(1)):       # the same step of the same path has been proved by an earlier VC
                        out.append('    if !(%s) { return; }' % (t_implies(nd.b, '(%s)' % m.group(1)) if nd.b and nd.b != 'true' else m.group(1)))
                    elif nd.b and nd.b != 'true': out.append('    if %s { %s }' % (nd.b, nd.a))
                    else: out.append('    ' + nd.a)
                elif nd.kind == 'obl':
                    if (nd.b, nd.a) in seen: out.append('    if !(%s) { return; }' % nd.a)
                    else:
                        seen.add((nd.b, nd.a))
                        out.append('    assert(%s);' % nd.a); info.append((len(out), nd.b))
            out.append('}')
        self.info = info; self.text = out; self.nfns = n
        return out, info

    def emit_vacuity(self, ctx):
        """one `assert(false)` per reachable kind of exit: each must FAIL, else the unit's hypotheses are contradictory"""
        out = []; names = []
        for i, (hist, why) in enumerate(ctx.leaves):
            if why not in ('return', 'back'): continue
            ch = chain_to(hist); mod = re.sub(r'\W+', '_', self.key); nm = 'vac_%s_%s_%d' % (mod, why, i)
            out.append('proof fn %s(%s)' % (nm, ', '.join('%s: %s' % (nd.a, nd.b) for nd in ch if nd.kind == 'fresh')))
            out.append('{')
            for nd in ch:
                if nd.kind == 'let': out.append('    let %s: %s = %s;' % (nd.a, nd.b[0], nd.b[1]))
                elif nd.kind in ('hyp', 'obl'): out.append('    if !(%s) { return; }' % nd.a)
                elif nd.kind == 'hint':
                    if (nd.a, nd.b) in self.dropped: continue
                    if nd.b and nd.b != 'true': out.append('    if %s { %s }' % (nd.b, nd.a))
                    else: out.append('    ' + nd.a)
            out.append('    assert(false);'); names.append((nm, why, len(out)))
            out.append('}')
        return out, names
