"""Calls: inlining of repository functions, interface boundaries, library models."""
from .term import *
from . import term as T
from . import eval as E
from .eval import Engine, State, merge, isbool, Giveup, SMART, STREAM, VEC_STD, MAP_STD, SET_STD
from .expr import cat, empty, fork_on, compare, PURE, isfloat, eq2

IFACE = {'hart::DSP', 'hart::Signal', 'hart::Matcher', 'hart::Envelope'}

def call(self, e, st):
    if e['k'] == 'icall':
        f = self.rv(e['f'], st)
        return self.icall(f, e, st)
    q = e.get('q', ''); fid = e.get('fn'); n = e.get('n', '')
    # calls of closures
    if e.get('op') == '()' and e.get('this') is not None and self.tk(e['this']['t']) == 'closure':
        return self.icall(self.rv(e['this'], st), e, st)
    if e.get('op') == '()' and e.get('this') is not None and self.p.strip(e['this']['t']).get('q') == 'std::function':
        return self.icall(self.rv(e['this'], st), e, st)
    f = self.p.fns.get(fid)
    cls = self.p.recs.get(e.get('cls')) if e.get('cls') else None
    own = f is not None and (cls is None or cls.get('own', True))
    if cls is not None and cls['q'] == 'hart::AudioBuffer' and self.adt:
        return self.buf_call(e, st)
    iface = e.get('mvirt')
    if own or iface:
        this = None
        if e.get('this') is not None:
            this = self.base(self.rv(e['this'], st)) if e.get('arrow') and self.tk(e['this']['t']) == 'ptr' else self.lv(e['this'], st)
        if st.store is None: return ('none',)
        if e.get('v') and this is not None:
            return fork_on(self, this, st, lambda l, s: self.vcall(e, fid, l, s))
        if f is None: return self.boundary(e, fid, this, st)
        if q in self.opaque: return self.boundary(e, fid, this, st)
        if this is not None and this[0] == 'lite': return fork_on(self, this, st, lambda l, s: self.inline(f, l, self.args(f, e['args'], s), s, e))
        return self.inline(f, this, self.args(f, e['args'], st), st, e)
    return self.lib(e, q, n, st)

def vcall(self, e, fid, this, st):
    d = self.dyn.get(this)
    if d is not None:
        m = self.p.final_overrider(d, fid)
        f = self.p.fns.get(m)
        if f is not None and f['q'] not in self.opaque: return self.inline(f, this, self.args(f, e['args'], st), st, e)
        return self.boundary(e, m, this, st)
    # unknown dynamic type: a virtual function of an interface that subclasses override is a boundary
    ov = [m for m in self.all_overriders(fid)]
    f = self.p.fns.get(fid)
    pure = f is None
    if pure or ov or e['n'].startswith('supports'): return self.boundary(e, fid, this, st)
    return self.inline(f, this, self.args(f, e['args'], st), st, e)

def all_overriders(self, fid):
    out = set(); st = [fid]
    while st:
        x = st.pop()
        for y in self.p.overriders.get(x, ()):
            if y not in out: out.add(y); st.append(y)
    return out

def boundary(self, e, fid, this, st):
    """a call whose callee is any implementation of an interface"""
    i = self.fresh()
    pts = e.get('pt', [])
    args = []; locs = []
    for a, pt in zip(e['args'], pts):
        t = self.p.ty(pt)
        if t['k'] in ('ref', 'rref'):
            l = self.lv(a, st); args.append(('loc', l)); locs.append((l, self.p.ty(t['to']), len(args) - 1))
        else:
            v = self.ev(a, st); args.append(v)
    if st.store is None: return ('none',)
    snap = {}
    for j, x in enumerate(args):
        if x[0] == 'loc': snap[j] = self.snapshot(x[1], pts[j], st)
    ret = self.p.ty(e['rt'])
    ev_ = self.emit('icall', st, e, id=i, q=e['q'], n=e['n'], this=this, args=args, snap=snap, store=dict(st.store) if self.logging else None)
    self.maythrow(st, i)
    for l, t, j in locs:
        if t.get('const'): continue
        self.havoc(l, pts[j], i, j, st, e)
    return self.opaque_result(e, i, e['n'], ret, e['rt'])

def opaque_result(self, e, i, name, ret, rt):
    v = ('ev', i, name)
    if ret['k'] == 'void': return ('none',)
    if ret['k'] in ('ref', 'rref'): return ('loc', (('deref', v),))
    k = self.tk(rt)
    if k in ('rec', 'vec', 'map', 'set', 'buf', 'std', 'pair', 'stream'): return ('obj', (('deref', v),))
    return v

def snapshot(self, loc, pt, st):
    """the observable part of an object at this moment"""
    k = self.tk(pt)
    if loc[0] == 'lite': return {}
    if k == 'buf': return {s[0]: (self.read_arr(loc + s, st)) for s in self.suffixes(pt)}
    if k in ('str', 'int', 'float', 'bool', 'enum', 'sptr', 'ptr'): return {'': self.read(loc, st)}
    if k == 'vec': return {'#size': self.read(loc + ('#size',), st)}
    return {}

def havoc(self, loc, pt, i, j, st, e):
    if loc[0] == 'lite':
        self.havoc(loc[2], pt, i, j, st, e); self.havoc(loc[3], pt, i, j, st, e); return
    k = self.tk(pt)
    if k == 'buf': self.setarr(loc + ('#s', ('[]',), ('[]',)), ('evout', i, j), st); return
    if k == 'vec': self.setarr(loc + (('[]',),), ('evout', i, j), st); return
    if k == 'stream':
        t = loc + ('#txt',); self.write(t, cat(self.read(t, st), ('ev', i, 'text')), st, e, quiet=True); return
    if k in ('int', 'float', 'bool', 'enum', 'ptr', 'str', 'sptr', 'iter'): self.write(loc, ('evout', i, j), st, e, quiet=True); return
    if k == 'rec':
        r = self.recof(pt)
        for f in self.p.all_fields(r):
            if self.tk(f['t']) in ('int', 'float', 'bool', 'enum', 'ptr', 'str', 'sptr'): self.write(loc + (f['n'],), ('evout', i, j, f['n']), st, e, quiet=True)
        return
    if k in ('map', 'set'): self.setarr(loc + ('#has', ('[]',)), ('evout', i, j), st); return
    self.write(loc + ('#state',), ('evout', i, j), st, e, quiet=True)

def maythrow(self, st, i):
    if self.trystack: self.trystack[-1].append((State(dict(st.store), st.pc, st.asm), i))

def icall(self, f, e, st):
    if f[0] == 'clo':
        fid, caps, this = self.clos[f[1]]
        fn = self.p.fns[fid]
        args = self.args(fn, e['args'], st)
        return self.call_closure(f, args, st, e)
    if f[0] == 'fn' and f[1] in self.p.fns:
        fn = self.p.fns[f[1]]
        return self.inline(fn, None, self.args(fn, e['args'], st), st, e)
    if f[0] == 'ite' and any(x[0] in ('clo', 'null') or x[0] == 'fn' and x[1] in self.p.fns for x in iteleaves(f)):
        s1 = st.fork(f[1]); s2 = st.fork(not_(f[1]))
        a = self.icall(f[2], e, s1); b = self.icall(f[3], e, s2)
        m = merge(s1, s2, self.default); st.store = m.store; st.asm = m.asm
        return self.mergeval(f[1], a, b, s1, s2)
    args = [self.rv(a, st) if self.tk(a['t']) in ('int', 'float', 'bool', 'enum', 'ptr', 'str', 'sptr') else self.ev(a, st) for a in e['args']]
    if st.store is None: return ('none',)
    i = self.fresh()
    self.emit('indirect', st, e, id=i, f=f, args=args, n='(indirect)', q='(indirect)')
    # the callee may add to what the library keeps in static containers
    for root in self.static_vecs():
        k = root + ('#size',)
        st.store[k] = add(self.read(k, st), ('evout', i, 'added'))
        k = root + (('[]',),)
        st.store[k] = ('evout', i, 'list')
    self.maythrow(st, i)
    return self.opaque_result(e, i, 'indirect', self.p.ty(e['t']), e['t'])

def iteleaves(f):
    return iteleaves(f[2]) + iteleaves(f[3]) if f[0] == 'ite' else [f]

def static_vecs(self):
    if not hasattr(self, '_svecs'):
        out = []
        def f(n):
            if n['k'] == 'decl':
                for d in n['v']:
                    if (d.get('static') or d.get('tls')) and self.tk(d['t']) == 'vec': out.append((('static', d['id'], d['n']),))
        for fn in self.p.fns.values():
            if fn['q'].startswith('hart::'): E.walk(fn.get('body'), f)
        for g in self.p.globals.values():
            if str(g.get('q', '')).startswith('hart::') and self.tk(g['t']) == 'vec' and not self.p.ty(g['t']).get('const'): out.append((('global', g['id'], g['q'].split('::')[-1]),))
        self._svecs = out
    return self._svecs

def call_closure(self, f, args, st, e):
    """args: locations for reference parameters, values otherwise"""
    if f[0] == 'fn':
        if f[1] in self.p.fns: return self.inline(self.p.fns[f[1]], None, args, st, e)
        raise Giveup('call of unknown function ' + str(f[2:]))
    if f[0] != 'clo': raise Giveup('call of unknown callable ' + show(f))
    fid, caps, this = self.clos[f[1]]
    fn = self.p.fns[fid]
    if len(self.stack) > 40: raise Giveup('recursion')
    fr = self.push(fn, this)
    inner = st.fork()
    for (d, n), l in caps.items(): inner.store[('&', ('var', fr.uid, d, n))] = l
    self.bind_params(fr, fn, args, inner)
    s, v = self.finish(fr, fn, inner)
    if s is None: st.store = None; return ('none',)
    st.store = s.store; st.asm = s.asm; st.pc = s.pc
    return v

def callv(self, f, vals, st, e):
    """calls a callable with argument values or ('loc', l)"""
    if f[0] == 'clo': fn = self.p.fns[self.clos[f[1]][0]]
    elif f[0] == 'fn' and f[1] in self.p.fns: fn = self.p.fns[f[1]]
    else: raise Giveup('callable')
    args = []
    for p, v in zip(fn['params'], vals):
        ref = self.p.ty(p['t'])['k'] in ('ref', 'rref')
        if ref:
            if v[0] in ('loc', 'obj'): args.append(v[1])
            else:
                t = self.tmp(); st.store[t] = v; args.append(t)
        else: args.append(self.read(v[1], st) if v[0] in ('loc', 'obj') and self.tk(p['t']) not in ('rec', 'vec', 'buf') else v if v[0] != 'loc' else ('obj', v[1]))
    v = self.call_closure(f, args, st, e)
    if v[0] in ('loc',): v = self.read(v[1], st) if st.store is not None else v
    return v

# ---------------------------------------------------------------- AudioBuffer
def buf_call(self, e, st):
    n = e['n']
    if e.get('this') is None:        # static members
        if n == 'emptyLike':
            s = self.lv(e['args'][0], st); t = self.tmp()
            self.write(t + ('#nch',), self.read(self.field(s, '#nch'), st), st, e, quiet=True)
            self.write(t + ('#nfr',), self.read(self.field(s, '#nfr'), st), st, e, quiet=True)
            self.setarr(t + ('#s', ('[]',), ('[]',)), ('constarr', ('flt', 0.0)), st)
            return ('obj', t)
        return self.unknown(e, st)
    this = self.base(self.rv(e['this'], st)) if e.get('arrow') and self.tk(e['this']['t']) == 'ptr' else self.lv(e['this'], st)
    if st.store is None: return ('none',)
    return fork_on(self, this, st, lambda l, s: self.buf_method(e, n, l, s))

def buf_method(self, e, n, this, st):
    op = e.get('op')
    if n == 'getNumChannels': return self.read(this + ('#nch',), st)
    if n == 'getNumFrames': return self.read(this + ('#nfr',), st)
    if op == '[]':
        ch = self.rv(e['args'][0], st)
        self.emit('chan', st, e, buf=this, ch=ch, n=self.read(this + ('#nch',), st))
        return ('ptr', this + ('#s', ('[]', ch)), ZERO)
    if n == 'appendFrom':
        o = self.lv(e['args'][0], st)
        a = self.read_arr(this + ('#s', ('[]',), ('[]',)), st); b = self.read_arr(o + ('#s', ('[]',), ('[]',)), st)
        n0 = self.read(this + ('#nfr',), st); n1 = self.read(o + ('#nfr',), st)
        self.emit('append', st, e, buf=this, other=o, n0=n0, n1=n1, src=b, nch=self.read(this + ('#nch',), st), onch=self.read(o + ('#nch',), st))
        self.setarr(this + ('#s', ('[]',), ('[]',)), ('append', a, n0, b, n1), st)
        self.write(this + ('#nfr',), add(n0, n1), st, e, quiet=True)
        return ('none',)
    if n == 'clear':
        self.write(this + ('#nfr',), ZERO, st, e); self.emit('clear', st, e, buf=this); return ('none',)
    if op == '=':
        o = self.lv(e['args'][0], st)
        self.copy_obj(this, o, e['this']['t'], st, e); 
        if e['args'][0].get('lv') == 2: self.write(o + ('#nfr',), ZERO, st, e, quiet=True)
        return ('loc', this)
    if n == 'getMagnitude':
        a = [self.rv(x, st) for x in e['args']]
        self.emit('magnitude', st, e, buf=this, args=tuple(a))
        return ('uf', 'magnitude', self.read_arr(this + ('#s', ('[]',), ('[]',)), st)) + tuple(a)
    if n in ('getArrayOfReadPointers', 'getArrayOfWritePointers'): return ('ptr', this + ('#s',), ZERO)
    return self.unknown(e, st, this)

# ---------------------------------------------------------------- library
def unknown(self, e, st, this=None):
    """an unmodelled function: an opaque result; whatever it can reach mutably is forgotten"""
    q = e.get('q', '?')
    i = self.fresh()
    args = []; locs = []
    for j, a in enumerate(e['args']):
        pt = e['pt'][j] if j < len(e.get('pt', [])) else a['t']
        t = self.p.ty(pt)
        if t['k'] in ('ref', 'rref') and self.tk(pt) not in ('str',):
            l = self.lv(a, st); args.append(('loc', l)); locs.append((l, t, pt, j))
        else:
            args.append(self.rv(a, st) if self.tk(a['t']) in ('int', 'float', 'bool', 'enum', 'ptr', 'str', 'sptr', 'iter', 'closure') else self.ev(a, st))
    if this is None and e.get('this') is not None:
        this = self.base(self.rv(e['this'], st)) if e.get('arrow') and self.tk(e['this']['t']) == 'ptr' else self.lv(e['this'], st)
    if st.store is None: return ('none',)
    snap = {}
    for j, x in enumerate(args):
        if x[0] == 'loc': snap[j] = self.snapshot(x[1], e['args'][j]['t'], st)
    self.emit('call', st, e, id=i, q=q, n=e.get('n'), this=this, args=args, snap=snap, store=dict(st.store) if self.logging else None)
    self.maythrow(st, i)
    for l, t, pt, j in locs:
        if self.p.ty(t['to']).get('const'): continue
        self.havoc(l, pt, i, j, st, e)
    for j, x in enumerate(args):
        if x[0] in ('addr', 'ptr') and j < len(e.get('pt', [])):
            t = self.p.ty(e['pt'][j])
            if t['k'] == 'ptr' and not self.p.ty(t['to']).get('const'):
                if x[0] == 'addr': self.havoc(x[1], t['to'], i, j, st, e)
                else: self.setarr(x[1] + (('[]',),), ('evout', i, j), st)
    if this is not None and not e.get('mconst', True):
        self.havoc(this, e['clst'] if 'clst' in e else e['this']['t'], i, 'this', st, e)
    return self.opaque_result(e, i, e.get('n') or q, self.p.ty(e['rt']) if 'rt' in e else self.p.ty(e['t']), e.get('rt', e['t']))

def thisloc(self, e, st):
    t = e['this']
    if e.get('arrow') and self.tk(t['t']) == 'ptr': return self.base(self.rv(t, st))
    return self.lv(t, st)

def lib(self, e, q, n, st):
    A = e['args']
    base = q.rsplit('::', 1)[0] if '::' in q else ''
    op = e.get('op')
    if q in ('std::move', 'std::forward', 'std::addressof', 'std::ref', 'std::cref', 'std::as_const') and len(A) == 1:
        l = self.lv(A[0], st)
        return ('loc', l) if q != 'std::addressof' else self.addr(l)
    if q in ('std::abs', 'std::fabs', 'fabs', 'abs', 'fabsf') and len(A) == 1: return tabs(self.rv(A[0], st))
    if n == 'isnan' and len(A) == 1: return ('isnan', self.rv(A[0], st))
    if q in ('std::min', 'std::max', 'std::fmin', 'std::fmax', 'fmin', 'fmax') and len(A) >= 2:
        a = self.rv(A[0], st); b = self.rv(A[1], st)
        if len(A) == 3: raise Giveup('min/max with comparator')
        # std::min (a, b) is b < a ? b : a
        r = tmin(a, b) if 'min' in n else tmax(a, b)
        return r
    if n in PURE and (base in ('', 'std')):
        return ('uf', n) + tuple(self.rv(a, st) for a in A)
    if q == 'std::swap' and len(A) == 2:
        a = self.lv(A[0], st); b = self.lv(A[1], st); t = self.tmp()
        self.copy_obj(t, a, A[0]['t'], st, e); self.copy_obj(a, b, A[0]['t'], st, e); self.copy_obj(b, t, A[0]['t'], st, e)
        if self.tk(A[0]['t']) == 'vec': self.emit('vswap', st, e, vec=a, src=b)
        return ('none',)
    if base in SMART or q.startswith('std::__shared_ptr_access::'): return self.smart(e, n, op, st)
    if q in ('std::make_shared', 'std::make_unique'):
        i = self.fresh(); t = self.p.strip(e['t'])
        inner = t['targs'][0]
        loc = (('new', i, inner),)
        ti = self._tix(inner)
        self.emit('new', st, e, id=i, type=inner, loc=loc)
        if ti is not None and self.tk(ti) == 'buf':
            n_ = [self.rv(a, st) for a in A]
            if len(A) == 1 and self.tk(A[0]['t']) == 'buf': self.copy_obj(loc, self.lv(A[0], st), A[0]['t'], st, e)
            else:
                self.write(loc + ('#nch',), n_[0] if n_ else ZERO, st, e); self.write(loc + ('#nfr',), n_[1] if len(n_) > 1 else ZERO, st, e)
                self.setarr(loc + ('#s', ('[]',), ('[]',)), ('constarr', ('flt', 0.0)), st)
        elif ti is not None and self.tk(ti) == 'rec':
            r = self.recof(ti); self.dyn[loc] = r['id']
            c = self.find_ctor(r, A)
            if c is not None: self.inline(c, loc, self.args(c, A, st), st, e)
        return ('addr', loc)
    if base in VEC_STD: return fork_on(self, self.thisloc(e, st), st, lambda l, s: self.vecop(e, n, op, l, s))
    if base in MAP_STD or base in SET_STD: return fork_on(self, self.thisloc(e, st), st, lambda l, s: self.mapop(e, n, op, l, s, base in SET_STD))
    if base == 'std::basic_string': return self.strop(e, n, op, st)
    if op == '<<' and len(A) + (1 if e.get('this') else 0) == 2: 
        x = self.out(e, st)
        if x is not None: return x
    if op == '+' and len(A) == 2 and self.tk(e['t']) == 'str':
        a = self.rv(A[0], st); b = self.rv(A[1], st)
        def s(v, x): return ('str', chr(v[1])) if v[0] == 'int' and 0 <= v[1] < 256 else v
        return cat(s(a, A[0]), s(b, A[1]))
    if base in STREAM or base in ('std::basic_ios', 'std::ios_base'):
        if n == 'str' and not A: return self.read(self.field(self.thisloc(e, st), '#txt'), st)
        if n == 'str' and A:
            self.write(self.field(self.thisloc(e, st), '#txt'), self.rv(A[0], st), st, e, quiet=True); return ('none',)
        return self.streamop(e, q, n, st)
    if op in ('==', '!=', '<', '>', '<=', '>=') and len(A) + (1 if e.get('this') else 0) == 2:
        xs = ([e['this']] if e.get('this') else []) + A
        a, b = (self.rv(x, st) for x in xs)
        return compare(self, op, a, b, False)
    if 'iterator' in base.lower() and e.get('this') is not None: return self.iterop(e, n, op, st)
    if 'iterator' in q.lower() or (op in ('+', '-') and len(A) == 2 and any(self.tk(x['t']) == 'iter' for x in A)):
        a, b = (self.rv(x, st) for x in A[:2])
        from .expr import arith
        return arith(self, op, a, b, False)
    if q in ('std::begin', 'std::end', 'std::cbegin', 'std::cend'):
        l = self.lv(A[0], st)
        return ('ptr', l, ZERO if 'begin' in n else self.read(self.field(l, '#size'), st))
    if base.startswith('std::uniform_') or base.startswith('std::normal_') or base.endswith('_distribution'):
        l = self.thisloc(e, st)
        if op == '()':
            g = self.lv(A[0], st); s0 = self.rngread(g, st); d0 = self.read(self.field(l, '#state'), st)
            v = ('uf', 'draw', d0, s0)
            self.rngwrite(g, ('uf', 'drawn', d0, s0), st, e)
            self.emit('draw', st, e, dist=l, gen=g)
            return v
        if n == 'reset': return ('none',)
    if op == '()' and e.get('this') is not None and 'engine' in base:
        g = self.thisloc(e, st); s0 = self.rngread(g, st); self.rngwrite(g, ('uf', 'advanced', s0), st, e); self.emit('draw', st, e, dist=None, gen=g); return ('uf', 'raw', s0)
    if 'engine' in base and n == 'seed':
        g = self.thisloc(e, st); self.write(self.field(g, '#state'), ('uf', 'ctor:' + base) + tuple(self.rv(a, st) for a in A), st, e); return ('none',)
    if n == 'operator=' and e.get('this') is not None:
        l = self.thisloc(e, st); s = self.lv(A[0], st)
        self.copy_obj(l, s, e['this']['t'], st, e); return ('loc', l)
    if q in ('std::setprecision', 'std::setw', 'std::setfill'):
        t = self.tmp(); st.store[t] = ('uf', n, self.rv(A[0], st)); return ('obj', t)
    r = self.algo(e, q, n, st)
    if r is not None: return r
    if n == 'get' and base == 'std::reference_wrapper': return ('loc', self.base(self.rv(e['this'], st)))
    return self.unknown(e, st)

def rngread(self, g, st): return self.read(self.field(g, '#state'), st)
def rngwrite(self, g, v, st, e): self.write(self.field(g, '#state'), v, st, e)

def find_ctor(self, r, A):
    c = [f for f in self.p.fns.values() if f.get('cls') == r['id'] and f.get('kind') == 'ctor' and len(f['params']) == len(A)]
    if len(c) == 1: return c[0]
    if len(A) == 1:
        same = self.p.strip(A[0]['t']).get('rid') == r['id']
        c = [f for f in c if (f['ck'] in ('copy', 'move')) == same]
        if same: c = [f for f in c if f['ck'] == ('move' if A[0].get('lv') == 2 or not A[0].get('lv') else 'copy')] or c
        return c[0] if c else None
    return c[0] if c else None

def _tix(self, name):
    if not hasattr(self, '_tbyname'): self._tbyname = {x['s']: i for i, x in enumerate(self.p.types) if x}
    return self._tbyname.get(name)

def smart(self, e, n, op, st):
    l = self.thisloc(e, st)
    if st.store is None: return ('none',)
    def f(l, st):
        v = self.read(l, st)
        if op == '->' or n == 'get': return v
        if op == '*': return ('loc', self.base(v))
        if n == 'operator bool': return not_(eq(v, NULL))
        if n == 'release': self.write(l, NULL, st, e); return v
        if n == 'reset':
            self.write(l, self.rv(e['args'][0], st) if e['args'] and not e['args'][0].get('defarg') else NULL, st, e); return ('none',)
        if op == '=':
            a = e['args'][0]
            if a.get('lv') and self.tk(a['t']) == 'sptr':
                s = self.lv(a, st); x = self.read(s, st)
                if self.p.strip(a['t'])['q'] == 'std::unique_ptr' or a.get('lv') == 2: self.write(s, NULL, st, e)
            else: x = self.rv(a, st)
            self.write(l, x, st, e); return ('loc', l)
        if n == 'swap':
            s = self.lv(e['args'][0], st); x = self.read(s, st); self.write(s, v, st, e); self.write(l, x, st, e); return ('none',)
        if op == '[]': return ('loc', self.ptrelem(v, self.rv(e['args'][0], st)))
        return self.unknown(e, st, l)
    return fork_on(self, l, st, f)

def vecop(self, e, n, op, l, st):
    A = e['args']
    size = lambda: self.read(l + ('#size',), st)
    vt = e['this']['t']
    et = self.elemtype(self.p.strip(vt))
    if n in ('size', 'length', 'max_size'): return size()
    if n == 'capacity': return ('uf', 'capacity', ('addr', l))
    if n == 'empty': return eq(size(), ZERO)
    if op == '[]' or n == 'at':
        i = self.rv(A[0], st)
        self.emit('index', st, e, vec=l, i=i, size=size(), checked=(n == 'at'))
        return ('loc', l + (('[]', i),))
    if n in ('front', 'back') and self.access: self.emit('access', st, e, ptr=('ptr', l, ZERO), i=ZERO, cnt=ONE, guard=TRUE, n=size(), what='element')
    if n == 'front': return ('loc', l + (('[]', ZERO),))
    if n == 'back': return ('loc', l + (('[]', sub(size(), ONE)),))
    if n in ('data', 'begin', 'cbegin'): return ('ptr', l, ZERO)
    if n in ('end', 'cend'): return ('ptr', l, size())
    if n == 'clear':
        self.emit('vclear', st, e, vec=l); self.setsize(l, ZERO, st, e); return ('none',)
    if n in ('reserve', 'shrink_to_fit'):
        for a in A: self.rv(a, st)
        self.emit('vgrow', st, e, vec=l); return ('none',)
    if n == 'resize':
        m = self.rv(A[0], st); s0 = size()
        k = l + (('[]',),)
        v = self.rv(A[1], st) if len(A) > 1 else (self.zero(et) if et is not None and self.tk(et) in ('int', 'float', 'bool', 'ptr', 'sptr') else ('flt', 0.0))
        key, ix = self.canon(k)
        if not ix: st.store[key] = ('resized', self.read_arr(k, st), s0, m, v) if not (s0 == ZERO) else ('constarr', v)
        self.emit('vresize', st, e, vec=l, size=m, old=s0)
        self.setsize(l, m, st, e); return ('none',)
    if n in ('push_back', 'emplace_back'):
        s0 = size()
        el = l + (('[]', s0),)
        ek = self.tk(et) if et is not None else 'int'
        self.pushnew(el, ek, et, A, st, e)
        if st.store is None: return ('none',)
        self.emit('push', st, e, vec=l, at=s0, el=el, etype=ek, store=dict(st.store) if self.logging else None, val=(self.read(el, st) if ek in ('int', 'float', 'bool', 'enum', 'ptr', 'sptr', 'str', 'closure') else None))
        self.setsize(l, add(s0, ONE), st, e)
        return ('loc', el)
    if n == 'pop_back': self.setsize(l, sub(size(), ONE), st, e); return ('none',)
    if n == 'assign' and len(A) == 2 and self.tk(A[0]['t']) in ('int',):
        m = self.rv(A[0], st); v = self.rv(A[1], st); self.setarr(l + (('[]',),), ('constarr', v), st); self.setsize(l, m, st, e); return ('none',)
    if n == 'assign' and len(A) == 2:
        a = self.rv(A[0], st); b = self.rv(A[1], st)
        if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]:
            c = sub(b[2], a[2]); self.emit('vgrow', st, e, vec=l); self.setsize(l, c, st, e); self.copyrange(a, c, ('ptr', l, ZERO), st, e); return ('none',)
    if op == '=':
        a = A[0]
        s = self.lv(a, st)
        if st.store is None: return ('none',)
        self.copy_obj(l, s, vt, st, e)
        self.emit('vassign', st, e, vec=l, src=s, move=(a.get('lv') == 2 or not a.get('lv')))
        if a.get('lv') == 2: self.setsize(s, ZERO, st, e)
        return ('loc', l)
    if n == 'swap':
        s = self.lv(A[0], st); t = self.tmp()
        self.copy_obj(t, l, vt, st, e); self.copy_obj(l, s, vt, st, e); self.copy_obj(s, t, vt, st, e); self.emit('vswap', st, e, vec=l, src=s); return ('none',)
    if n == 'insert' and len(A) == 3:
        pos, a, b = (self.rv(x, st) for x in A)
        if pos[0] == 'ptr' and a[0] == 'ptr' and b[0] == 'ptr' and pos[1] == l and pos[2] == size() and a[1] == b[1]:
            c = sub(b[2], a[2]); self.copyrange(a, c, ('ptr', l, size()), st, e); self.emit('vgrow', st, e, vec=l); self.setsize(l, add(size(), c), st, e); return ('ptr', l, pos[2])
        self.emit('vmess', st, e, vec=l); self.setsize(l, ('evout', self.fresh(), 'size'), st, e); self.setarr(l + (('[]',),), ('evout', self.fresh(), 'vec'), st); return ('ptr', l, ZERO)
    if n in ('rbegin', 'rend', 'crbegin', 'crend'): return ('rit', l, ZERO if 'begin' in n else size())
    if n in ('insert', 'emplace') and len(A) == 2:
        pos = self.rv(A[0], st); s0 = size()
        if pos[0] == 'ptr' and pos[1] == l:
            ek = self.tk(et) if et is not None else 'int'
            if pos[2] != s0:
                self.setarr(l + (('[]',),), ('evout', self.fresh(), 'vec'), st)
            el = l + (('[]', pos[2]),)
            self.pushnew(el, ek, et, A[1:], st, e)
            if st.store is None: return ('none',)
            self.emit('push', st, e, vec=l, at=pos[2], el=el, etype=ek, store=dict(st.store) if self.logging else None, val=(self.read(el, st) if ek in ('int', 'float', 'bool', 'enum', 'ptr', 'sptr', 'str', 'closure') else None))
            self.setsize(l, add(s0, ONE), st, e)
            return ('ptr', l, pos[2])
        self.emit('vmess', st, e, vec=l, n=n)
        self.setsize(l, ('evout', self.fresh(), 'size'), st, e); self.setarr(l + (('[]',),), ('evout', self.fresh(), 'vec'), st)
        return ('ptr', l, ZERO)
    if n in ('erase', 'insert', 'emplace', 'assign', 'rbegin', 'rend', 'crbegin', 'crend', 'push_front', 'pop_front'):
        for a in A: self.ev(a, st)
        self.emit('vmess', st, e, vec=l, n=n)
        if n in ('rbegin', 'rend', 'crbegin', 'crend'):
            return ('rit', l, ZERO if 'begin' in n else size())
        self.setsize(l, ('evout', self.fresh(), 'size'), st, e); self.setarr(l + (('[]',),), ('evout', self.fresh(), 'vec'), st)
        return ('ptr', l, ZERO)
    return self.unknown(e, st, l)

def pushnew(self, el, ek, et, A, st, e):
    if ek == 'rec' and not (len(A) == 1 and self.p.strip(A[0]['t']).get('rid') == self.p.strip(et).get('rid')):
        r = self.recof(et)
        c = self.find_ctor(r, A)
        if c is not None: self.inline(c, el, self.args(c, A, st), st, e); return
        for f, a in zip(self.p.all_fields(r), A): self.init(el + (f['n'],), a, st, None)
        return
    if len(A) == 1:
        a = A[0]
        if ek == 'sptr':
            if a.get('lv') and self.tk(a['t']) == 'sptr':
                s = self.lv(a, st); v = self.read(s, st)
                if self.p.strip(a['t'])['q'] == 'std::unique_ptr': self.write(s, NULL, st, e)
            else: v = self.rv(a, st)
            self.write(el, v, st, e); return
        if ek in ('rec', 'vec', 'buf', 'map', 'set', 'std', 'pair'):
            if a.get('lv'):
                s = self.lv(a, st)
                c = None
                if ek == 'rec':
                    c = self.copy_ctor(self.recof(et), a.get('lv') == 2)
                if c is not None: self.inline(c, el, [s], st, e)
                else: self.copy_obj(el, s, et, st, e, move=a.get('lv') == 2)
            else: self.init(el, a, st, et)
            return
        self.write(el, self.rv(a, st), st, e); return
    if not A:
        if et is not None: self.zero_init(el, et, st)
        return
    self.write(el, ('uf', 'emplaced') + tuple(self.rv(a, st) for a in A), st, e)

def copy_ctor(self, r, move):
    if r is None: return None
    cs = {f['ck']: f for f in self.p.fns.values() if f.get('cls') == r['id'] and f.get('kind') == 'ctor'}
    return cs.get('move' if move else 'copy') or (cs.get('copy') if move else None)

def mapop(self, e, n, op, l, st, isset):
    A = e['args']
    H = l + ('#has', ('[]',))
    has = lambda: self.read_arr(H, st)
    vt = self.p.strip(e['this']['t'])
    et = None
    if not isset and 'targs' in vt and len(vt['targs']) > 1: et = self._tix(vt['targs'][1])
    ek = self.tk(et) if et is not None else 'sptr'
    def hask(k): return sel(has(), ('ix', k))
    def sethas(k, v): self.write(l + ('#has', ('[]', k)), v, st, e, quiet=True)
    if n == 'size': return ('uf', 'msize', has())
    if n == 'empty': return ('mempty', has()) if has()[0] != 'constarr' else not_(has()[1])
    if n == 'clear':
        self.emit('mclear', st, e, map=l); self.setarr(H, ('constarr', FALSE), st); return ('none',)
    if n in ('find',): return ('mit', l, self.rv(A[0], st), has())
    if n in ('end', 'cend'): return ('mend', l)
    if n in ('begin', 'cbegin'): return ('mpos', l, ZERO, has())
    if n in ('count', 'contains'): return self.hasterm(has(), self.rv(A[0], st))
    if n == 'at':
        k = self.rv(A[0], st); self.emit('mapat', st, e, map=l, key=k, has=self.hasterm(has(), k)); return ('loc', l + (('[]', k),))
    if op == '[]':
        k = self.rv(A[0], st)
        self.emit('mapindex', st, e, map=l, key=k, has=self.hasterm(has(), k))
        sethas(k, TRUE)
        return ('loc', l + (('[]', k),))
    if n in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
        if len(A) >= (1 if isset else 2) and not (len(A) == 1 and not isset):
            k = self.rv(A[0], st); h = self.hasterm(has(), k)
            if not isset:
                t = self.tmp()
                self.pushnew(t, ek, et, A[1:], st, e)
                if st.store is None: return ('none',)
                v = self.read(t, st) if ek in ('sptr', 'int', 'float', 'bool', 'ptr', 'str', 'enum') else ('obj', t)
                self.emit('mapinsert', st, e, map=l, key=k, val=v, has=h, over=(n == 'insert_or_assign'), vloc=t, store=dict(st.store) if self.logging else None)
                el = l + (('[]', k),)
                if v[0] != 'obj':
                    old = self.read(el, st)
                    self.write(el, v if n == 'insert_or_assign' else ite(h, old, v), st, e)
                else:
                    self.copy_obj(el, t, et, st, e)
            else: self.emit('mapinsert', st, e, map=l, key=k, val=('none',), has=h, over=False)
            sethas(k, TRUE)
            t = self.tmp(); st.store[t + ('second',)] = not_(h); st.store[t + ('first',)] = ('mit', l, k, has())
            return ('obj', t)
        if len(A) == 1:
            x = self.lv(A[0], st)
            k = self.read(x + ('first',), st); h = self.hasterm(has(), k)
            el = l + (('[]', k),)
            v = self.read(x + ('second',), st)
            self.emit('mapinsert', st, e, map=l, key=k, val=v, has=h, over=False, vloc=x)
            self.write(el, ite(h, self.read(el, st), v), st, e); sethas(k, TRUE)
            t = self.tmp(); st.store[t + ('second',)] = not_(h); st.store[t + ('first',)] = ('mit', l, k, has())
            return ('obj', t)
    if n == 'erase':
        k = self.rv(A[0], st)
        if k[0] == 'mit': k = k[2]
        self.emit('maperase', st, e, map=l, key=k); h = self.hasterm(has(), k); sethas(k, FALSE); return h
    if op == '=':
        s = self.lv(A[0], st); self.copy_obj(l, s, e['this']['t'], st, e)
        self.emit('massign', st, e, map=l, src=s, move=A[0].get('lv') == 2 or not A[0].get('lv'))
        if A[0].get('lv') == 2: self.setarr(s + ('#has', ('[]',)), ('constarr', FALSE), st)
        return ('loc', l)
    if n in ('reserve', 'rehash'): return ('none',)
    return self.unknown(e, st, l)

def hasterm(self, has, k):
    v = sel(has, ('ix', k))
    if v[0] == 'sel': return ('has', v[1], v[2][1])
    # keys that are elements of the very same map are present
    if k[0] == 'uf' and k[1] == 'mkey' and k[2] == has: return TRUE
    return v

def iterop(self, e, n, op, st):
    l = self.thisloc(e, st); v = self.read(l, st)
    if op == '*': 
        if v[0] == 'mit': return ('loc', (('mapel', v[1], v[2]),))
        if v[0] == 'mpos': return ('loc', (('mapel', v[1], ('uf', 'mkey', v[3], v[2])),))
        if v[0] == 'rit': return ('loc', v[1] + (('[]', sub(sub(self.read(v[1] + ('#size',), st), ONE), v[2])),))
        return ('loc', self.base(v))
    if op == '->':
        if v[0] == 'mit': return ('addr', (('mapel', v[1], v[2]),))
        if v[0] == 'mpos': return ('addr', (('mapel', v[1], ('uf', 'mkey', v[3], v[2])),))
        return v
    if op in ('++', '--'):
        d = ONE if op == '++' else num(-1)
        if v[0] in ('rit', 'mpos'): nv = v[:2] + (add(v[2], d),) + v[3:]
        else: nv = self.padd(v, d)
        self.write(l, nv, st, e)
        return v if e['args'] else ('loc', l)
    if op in ('+=', '-='):
        d = self.rv(e['args'][0], st); self.write(l, self.padd(v, d if op == '+=' else neg(d)), st, e); return ('loc', l)
    if op in ('+', '-'):
        from .expr import arith
        return arith(self, op, v, self.rv(e['args'][0], st), False)
    if op == '[]': return ('loc', self.ptrelem(v, self.rv(e['args'][0], st)))
    if op == '=':
        x = self.rv(e['args'][0], st); self.write(l, x, st, e); return ('loc', l)
    if op in ('==', '!='): return compare(self, op, v, self.rv(e['args'][0], st), False)
    if n == 'base': return v
    return self.unknown(e, st, l)

def strop(self, e, n, op, st):
    l = self.thisloc(e, st)
    if st.store is None: return ('none',)
    A = e['args']
    def f(l, st):
        v = self.read(l, st)
        if n == 'empty': return empty(v)
        if n in ('size', 'length'): return ('uf', 'strlen', v) if v[0] != 'str' else num(len(v[1].encode('utf8')))
        if n in ('c_str', 'data'): return v
        if n == 'clear': self.write(l, ('str', ''), st, e); return ('none',)
        if op == '=' or (n == 'assign' and len(A) == 1):
            x = self.rv(A[0], st); self.write(l, x, st, e); return ('loc', l)
        if op == '+=' or (n in ('append', 'push_back') and len(A) == 1):
            x = self.rv(A[0], st)
            if x[0] == 'int' and 0 <= x[1] < 256: x = ('str', chr(x[1]))
            self.write(l, cat(v, x), st, e); return ('loc', l)
        if op == '[]' or n == 'at': 
            t = self.tmp(); st.store[t] = ('uf', 'charat', v, self.rv(A[0], st)); return ('loc', t)
        if n == 'front':
            t = self.tmp(); st.store[t] = ('uf', 'charat', v, ZERO); return ('loc', t)
        if n in ('swap',):
            s = self.lv(A[0], st); x = self.read(s, st); self.write(s, v, st, e); self.write(l, x, st, e); return ('none',)
        if n in ('find', 'rfind', 'substr', 'compare', 'back', 'find_first_of', 'find_last_of', 'begin', 'end', 'find_first_not_of'): return ('uf', 'str.' + n, v) + tuple(self.rv(a, st) for a in A)
        return self.unknown(e, st, l)
    return fork_on(self, l, st, f)

def out(self, e, st):
    xs = ([e['this']] if e.get('this') is not None else []) + e['args']
    if self.tk(xs[0]['t']) != 'stream': return None
    s = self.base(self.rv(xs[0], st)) if e.get('arrow') and self.tk(xs[0]['t']) == 'ptr' else self.lv(xs[0], st)
    a = xs[1]
    k = self.tk(a['t'])
    if st.store is None: return ('none',)
    if k in ('rec', 'vec', 'map', 'buf'): return None
    v = self.ev(a, st)
    if st.store is None: return ('none',)
    if v[0] in ('loc', 'obj'): 
        v = self.read(v[1], st)
        if v[0] in ('undef',): v = ('uf', 'opaque', v)
    if v[0] == 'fn' and v[1] in self.p.fns:
        self.inline(self.p.fns[v[1]], None, [s], st, e)
        return ('loc', s)
    pt = e['pt'][-1] if e.get('pt') else a['t']
    t = self.p.strip(a['t'])
    if t['k'] == 'int' and t['s'].endswith('char') and isnum(v): v = ('str', chr(v[1] % 256))
    self.emit('out', st, e, stream=s, val=v, type=t['s'], tkind=t['k'])
    item = v if v[0] in ('str', 'cat', 'ite') else ('fmt', v, ('str', t['k']))
    fork_on(self, s, st, lambda l, s2: self.write(l + ('#txt',), cat(self.read(l + ('#txt',), s2), item), s2, e, quiet=True))
    return ('loc', s)

def streamop(self, e, q, n, st):
    l = self.thisloc(e, st)
    A = e['args']
    args = [self.rv(a, st) if self.tk(a['t']) in ('int', 'float', 'bool', 'enum', 'ptr', 'str') else self.ev(a, st) for a in A]
    if st.store is None: return ('none',)
    i = self.fresh()
    k = self.read(self.field(l, '#io'), st) if l[0] != 'lite' else ('none',)
    self.emit('call', st, e, id=i, q=q, n=n, this=l, args=args, snap={}, store=dict(st.store) if self.logging else None)
    self.maythrow(st, i)
    if n in ('precision',) and A:
        self.emit('out', st, e, stream=l, val=('uf', 'setprecision', args[0]), type='precision', tkind='rec')
        t = l + ('#txt',); self.write(t, cat(self.read(t, st), ('fmt', ('uf', 'setprecision', args[0]), ('str', 'rec'))), st, e, quiet=True)
    if n in ('setf',) and A:
        self.emit('out', st, e, stream=l, val=('uf', 'setf') + tuple(args), type='flags', tkind='rec')
    if n == 'write' and q.startswith('std::basic_ostream'): return ('loc', l)
    if n == 'flush': return ('loc', l)
    return self.opaque_result(e, i, n, self.p.ty(e['rt']), e['rt'])

# ---------------------------------------------------------------- algorithms
def countloop(self, node, st, count, body, over=None):
    """for (i = 0; i < count; ++i) body (i)"""
    kv = (('var', self.frame.uid, -(self.nloop + 1), '#i'),)
    st.store[kv] = ZERO
    def cond(x): return lt(self.read(kv, x), count)
    def bd(x):
        body(self.read(kv, x), x)
        return x if x.store is not None else None
    def inc(x): self.write(kv, add(self.read(kv, x), ONE), x, node); return x
    out = self.genloop(node, st, cond, bd, inc, over=over)
    if out is None: st.store = None
    else: st.store = out.store; st.asm = out.asm; st.pc = out.pc
    return kv

def copyrange(self, a, cnt, d, st, e):
    def body(i, x):
        v = self.read(self.ptrelem(a, i), x); self.write(self.ptrelem(d, i), v, x, e)
    self.countloop(e, st, cnt, body)

def algo(self, e, q, n, st):
    A = e['args']
    if not q.startswith('std::'): return None
    if n in ('fill', 'copy', 'transform', 'for_each', 'generate', 'any_of', 'all_of', 'none_of', 'count_if', 'find_if', 'find_if_not', 'accumulate', 'max_element', 'min_element', 'fill_n', 'copy_n', 'generate_n', 'iota', 'move', 'equal', 'find', 'count', 'inner_product', 'copy_if'): pass
    else: return None
    v = [self.rv(a, st) if self.tk(a['t']) in ('ptr', 'iter', 'int', 'float', 'bool', 'closure', 'enum') else self.ev(a, st) for a in A]
    if st.store is None: return ('none',)
    first = v[0]
    if first == ('null',) and n in ('copy', 'move') and len(v) == 3 and v[1] == ('null',): return v[2]
    if first[0] != 'ptr': return self.unknown(e, st)
    if n in ('fill_n', 'copy_n', 'generate_n'): cnt = v[1]
    else:
        if len(v) < 2 or v[1][0] != 'ptr' or v[1][1] != first[1]: return self.unknown(e, st)
        cnt = sub(v[1][2], first[2])
    if self.access:
        self.accessed(e, st, first, ZERO, cnt)
        for j in {'copy': (2,), 'move': (2,), 'copy_n': (2,), 'transform': (2, 3), 'equal': (2,), 'inner_product': (2,)}.get(n, ()):
            if j < len(v) and v[j][0] in ('ptr', 'ite'): self.accessed(e, st, v[j], ZERO, cnt)
    el = lambda i, p=first: self.ptrelem(p, i)
    # element value for by-value use
    def rd(loc, x): return ('loc', loc)
    def need(c):
        if c[0] not in ('clo', 'fn') or (c[0] == 'fn' and c[1] not in self.p.fns): raise Giveup('algorithm %s with an unknown callable' % n)
    if n == 'fill' or n == 'fill_n':
        val = v[2]
        if val[0] in ('loc', 'obj'): val = self.read(val[1], st)
        self.countloop(e, st, cnt, lambda i, x: self.write(el(i), val, x, e)); return ('none',) if n == 'fill' else self.padd(first, cnt)
    if n in ('copy', 'copy_n', 'move'):
        d = v[2]; self.copyrange(first, cnt, d, st, e); return self.padd(d, cnt)
    if n == 'transform':
        if len(v) == 4:
            need(v[3])
            def body(i, x):
                r = self.callv(v[3], [rd(el(i), x)], x, e)
                if x.store is not None: self.write(self.ptrelem(v[2], i), r, x, e)
            self.countloop(e, st, cnt, body); return self.padd(v[2], cnt)
        need(v[4])
        def body2(i, x):
            r = self.callv(v[4], [rd(el(i), x), rd(self.ptrelem(v[2], i), x)], x, e)
            if x.store is not None: self.write(self.ptrelem(v[3], i), r, x, e)
        self.countloop(e, st, cnt, body2); return self.padd(v[3], cnt)
    if n == 'for_each':
        need(v[2])
        self.countloop(e, st, cnt, lambda i, x: self.callv(v[2], [rd(el(i), x)], x, e)); return v[2]
    if n in ('generate', 'generate_n'):
        g = v[2]; need(g)
        self.countloop(e, st, cnt, lambda i, x: self.write(el(i), self.callv(g, [], x, e), x, e)); return ('none',)
    if n in ('any_of', 'all_of', 'none_of', 'find_if', 'count_if', 'find_if_not'):
        need(v[2])
        res = self.tmp(); st.store[res] = FALSE
        flag = (('var', self.frame.uid, -(self.nloop + 1), '#r'),)
        st.store[flag] = FALSE if n != 'count_if' else ZERO
        def body(i, x):
            r = self.tobool(self.callv(v[2], [rd(el(i), x)], x, e))
            if x.store is None: return
            if n == 'count_if': self.write(flag, add(self.read(flag, x), ite(r, ONE, ZERO)), x, e); return
            if n in ('all_of', 'find_if_not'): r = not_(r)
            self.write(flag, or_(self.read(flag, x), r), x, e)
        L = self.nloop + 1
        self.countloop(e, st, cnt, body)
        if st.store is None: return ('none',)
        f = self.read(flag, st)
        if n == 'any_of': return f
        if n == 'count_if': return f
        if n in ('all_of', 'none_of'): return not_(f)
        return ('ptr', first[1], ite(f, add(first[2], ('kx', L)), add(first[2], cnt)))
    if n == 'accumulate':
        acc = (('var', self.frame.uid, -(self.nloop + 1), '#r'),)
        st.store[acc] = v[2] if v[2][0] not in ('loc', 'obj') else self.read(v[2][1], st)
        def body(i, x):
            a = self.read(acc, x)
            r = self.callv(v[3], [a, rd(el(i), x)], x, e) if len(v) > 3 else add(a, self.read(el(i), x))
            if x.store is not None: self.write(acc, r, x, e)
        self.countloop(e, st, cnt, body)
        return self.read(acc, st) if st.store is not None else ('none',)
    if n in ('max_element', 'min_element'):
        cmp_ = None
        if len(v) > 2:
            need(v[2])
            ta, tb = self.tmp(), self.tmp()
            x = st.fork(); x.store[ta] = ('in', 'a'); x.store[tb] = ('in', 'b')
            cmp_ = self.callv(v[2], [('loc', ta), ('loc', tb)], x, e)
        i = ('uf', 'argbest', ('str', n), self.read_arr(first[1] + (('[]',),), st) if not self.canon(first[1])[1] else ('uf', 'row', ('addr', first[1]), self.rowval(first[1], st)), first[2], cnt, cmp_ if cmp_ is not None else ('none',))
        self.emit('best', st, e, first=first, cnt=cnt, cmp=cmp_, n=n, which=i)
        return ('ptr', first[1], i)
    return None

def rowval(self, loc, st):
    key, ix = self.canon(loc + (('[]',),))
    a = st.store.get(key)
    return a if a is not None else self.default(key)

for f in (call, vcall, static_vecs, all_overriders, boundary, opaque_result, snapshot, havoc, maythrow, icall, call_closure, callv, buf_call, buf_method, unknown, thisloc, lib, rngread, rngwrite, find_ctor, _tix, smart, vecop, pushnew, copy_ctor, mapop, hasterm, iterop, strop, out, streamop, countloop, copyrange, algo, rowval): setattr(Engine, f.__name__, f)

_field0 = Engine.field
def field(self, loc, name):
    if len(loc) == 1 and isinstance(loc[0], tuple) and loc[0] and loc[0][0] == 'mapel':
        if name == 'second': return loc[0][1] + (('[]', loc[0][2]),)
        if name == 'first': return (('mapkey', loc[0][2]),)
    return _field0(self, loc, name)
Engine.field = field
_read0 = Engine.read
def read(self, loc, st):
    if st.store is None: return ('none',)
    if len(loc) == 1 and isinstance(loc[0], tuple) and loc[0] and loc[0][0] == 'mapkey': return loc[0][1]
    return _read0(self, loc, st)
Engine.read = read
Engine.mapel = lambda self, m, key: (('mapel', m, key),)
_write0 = Engine.write
def write(self, loc, v, st, node=None, quiet=False):
    if st.store is None: return
    return _write0(self, loc, v, st, node, quiet)
Engine.write = write
