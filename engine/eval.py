"""Gated value-numbering over the AST: computes, for a function, the terms its variables,
fields, samples and results hold, and a log of its effects with guards and enclosing loops.
States are merged at joins (no path enumeration); loops are put in closed form where their
recurrences allow it and left as opaque recurrences otherwise."""
from . import term as T
from .term import *
from .prog import Prog, walk, short

class Giveup(Exception): pass

class State:
    __slots__ = ('store', 'pc', 'asm')
    def __init__(self, store=None, pc=TRUE, asm=()):
        self.store = store if store is not None else {}
        self.pc = pc; self.asm = asm
    def fork(self, c=TRUE):
        return State(dict(self.store), and_(self.pc, c), self.asm)

def disc(p1, p2):
    A = set(p1[1:]) if p1[0] == 'and' else ({p1} if p1 != TRUE else set())
    B = set(p2[1:]) if p2[0] == 'and' else ({p2} if p2 != TRUE else set())
    r1, r2 = A - B, B - A
    for x in sorted(r1, key=skey):
        if not_(x) in r2: return x
    if r1: return and_(*r1)
    if r2: return not_(and_(*r2))
    return None

def merge(s1, s2, default=None):
    if s1 is None: return s2
    if s2 is None: return s1
    c = disc(s1.pc, s2.pc)
    if c is None: c = ('uf', 'nondet', s1.pc)
    st = {}
    for k in s1.store.keys() | s2.store.keys():
        a = s1.store.get(k); b = s2.store.get(k)
        if a is None: a = default(k) if default else ('undef', k)
        if b is None: b = default(k) if default else ('undef', k)
        if a == b: st[k] = a
        elif k[0] == '&': st[k] = ('lite', c, a, b) if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] != ('undef',) and b[:1] != ('undef',) else (a if b[:1] == ('undef',) else b)
        else: st[k] = ite(c, a, b)
    asm = tuple(x for x in s1.asm if x in s2.asm)
    return State(st, or_(s1.pc, s2.pc), asm)

class Ev:
    """one logged effect"""
    def __init__(self, **kw): self.__dict__.update(kw)
    def __repr__(self):
        d = {k: v for k, v in self.__dict__.items() if k not in ('kind', 'file', 'line', 'pc', 'asm', 'loops', 'stack', 'id', 'seq', 'lpcs', 'node', 'store', 'snap')}
        def s(v):
            if isinstance(v, tuple): return show(v) if v and isinstance(v[0], str) and v[0] in T.OPS | {'undef', 'lite', 'lam'} else showloc(v)
            if isinstance(v, list): return '[' + ', '.join(s(x) for x in v) + ']'
            return str(v)
        return '#%s %s:%s %s{%s} loops=%s pc=%s' % (self.id, self.file.split('/')[-1], self.line, self.kind, ', '.join('%s=%s' % (k, s(v)) for k, v in d.items()), list(self.loops), show(self.pc))

class Loop:
    def __init__(self, L): self.L = L; self.T = None; self.conds = []; self.phis = {}; self.file = ''; self.line = 0; self.parent = None; self.pc = TRUE; self.exitcond = FALSE; self.over = None; self.cond = TRUE
    def __repr__(self): return 'Loop%s T=%s cond=%s parent=%s over=%s early=%s %s:%s phis=%s' % (self.L, show(self.T) if self.T else None, show(self.cond), self.parent, showloc(self.over) if self.over else None, show(self.exitcond), self.file.split('/')[-1], self.line, {showloc(k): (show(v[0]), show(v[1])) for k, v in self.phis.items()})

class Frame:
    def __init__(self, fn, uid, this): self.fn = fn; self.uid = uid; self.this = this; self.rets = []; self.brk = []; self.cont = []

SCALAR_STD = {'std::basic_string', 'std::unique_ptr', 'std::shared_ptr', 'std::mersenne_twister_engine', 'std::function', 'std::linear_congruential_engine', 'std::reference_wrapper'}
VEC_STD = {'std::vector', 'std::array', 'std::initializer_list', 'std::deque', 'std::list'}
MAP_STD = {'std::unordered_map', 'std::map'}
SET_STD = {'std::unordered_set', 'std::set'}
SMART = {'std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr_access', 'std::__shared_ptr', 'std::__uniq_ptr_impl'}
STREAM = {'std::basic_ostream', 'std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_ofstream', 'std::basic_ios', 'std::basic_fstream', 'std::basic_iostream', 'std::basic_istream', 'std::basic_ifstream'}

BOOLOPS = {'lt', 'le', 'eq', 'feq', 'not', 'and', 'or', 'bool', 'isnan', 'exists', 'has', 'mempty', 'empty', 'isa', 'throws'}
def isbool(t): return t[0] in BOOLOPS or (t[0] == 'ite' and isbool(t[2]) and isbool(t[3]))

def const_false(c):
    while c.get('k') == 'cast': 
        if c.get('cv') in ('0', 'false'): return True
        c = c['e']
    return (c.get('k') == 'int' and int(c['v']) == 0) or (c.get('k') == 'bool' and not c['v']) or c.get('cv') in ('0', 'false')

class Engine:
    def __init__(self, prog, adt_buf=True, inline_iface=(), opaque=(), access=False, narrow=False):
        self.p = prog; self.adt = adt_buf
        self.nid = 0; self.nframe = 0; self.nloop = 0
        self.log = []; self.logging = True
        self.loops = {}
        self.loopstack = []
        self.stack = []
        self.dyn = {}
        self.throws = []       # (State, type string, message term, line)
        self.trystack = []
        self.dead = []
        self.warn = []
        self.opaque = set(opaque)
        self.depth = 0
        self.loopnid = {}
        self.narrow = narrow   # conversions to small integer types are kept as terms
        self.access = access   # record element accesses
        self.given = {}        # {array: what its elements are}
        self.conv = []         # narrowing conversions seen

    # ------------------------------------------------------------ basics
    def fresh(self): self.nid += 1; return self.nid

    def where(self, n): return (self.frame.fn['file'], n.get('l', self.frame.fn['line']) if n else self.frame.fn['line'])

    def emit(self, kind, st, node, **kw):
        i = kw.pop('id', None) or self.fresh()
        f, l = self.where(node)
        e = Ev(kind=kind, id=i, file=f, line=l, pc=st.pc, asm=st.asm, loops=tuple(self.loopstack), stack=tuple(x.fn['q'] for x in self.stack), node=node, **kw)
        if self.logging: e.seq = len(self.log); self.log.append(e)
        return e

    def tk(self, ti):
        t = self.p.strip(ti) if isinstance(ti, int) else ti
        k = t['k']
        if k in ('int', 'float', 'bool', 'enum', 'ptr', 'void'): return k
        if k == 'array': return 'vec'
        if k == 'rec':
            q = t['q']
            if q == 'hart::AudioBuffer' and self.adt: return 'buf'
            if q in VEC_STD: return 'vec'
            if q in MAP_STD: return 'map'
            if q in SET_STD: return 'set'
            if q == 'std::basic_string': return 'str'
            if q in ('std::unique_ptr', 'std::shared_ptr'): return 'sptr'
            if q in STREAM: return 'stream'
            if q.endswith('iterator') or '_iterator' in q or 'iterator' in q.lower(): return 'iter'
            if q == 'std::pair': return 'pair'
            r = self.p.recs.get(t['rid'])
            if r is not None and r.get('own'): return 'closure' if r.get('lambda') else 'rec'
            return 'std'
        return 'other'

    def recof(self, ti):
        t = self.p.strip(ti)
        return self.p.recs.get(t.get('rid'))

    # ------------------------------------------------------------ locations
    def canon(self, loc):
        key = []; ix = []
        for s in loc:
            if isinstance(s, tuple) and s and s[0] == '[]':
                if len(s) > 1: ix.append(s[1])
                key.append(('[]',))
            else: key.append(s)
        return tuple(key), (('ix',) + tuple(ix) if ix else None)

    def default(self, key):
        r = key[0]
        if isinstance(r, tuple) and r and r[0] in ('var', 'tmp', 'new'):
            return ('undef', key)
        if T.READY and len(key) > 1 and key[-1] in T.READY: return TRUE
        return ('in', key)

    def read(self, loc, st):
        if loc[0] == 'lite': return ite(loc[1], self.read(loc[2], st), self.read(loc[3], st))
        key, ix = self.canon(loc)
        a = st.store.get(key)
        if a is None: a = self.default(key)
        if ix and a[0] == 'in' and a[1] in self.given: return self.given[a[1]](ix)
        return sel(a, ix) if ix else a

    def write(self, loc, v, st, node=None, quiet=False):
        if loc[0] == 'lite':
            for c, l in ((loc[1], loc[2]), (not_(loc[1]), loc[3])):
                old = self.read(l, st); self.write(l, ite(c, v, old), st, node, quiet)
            return
        key, ix = self.canon(loc)
        if ix:
            a = st.store.get(key)
            if a is None: a = self.default(key)
            st.store[key] = store(a, ix, v)
        else: st.store[key] = v
        root = loc[0]
        local = isinstance(root, tuple) and root and root[0] in ('var', 'tmp') and not ix
        if not local and not quiet:
            self.emit('write', st, node, loc=loc, key=key, ix=ix, val=v)

    def tmp(self): return (('tmp', self.fresh()),)

    def base(self, ptr, st=None):
        """pointer value -> location"""
        if ptr[0] == 'addr': return ptr[1]
        if ptr[0] == 'ptr': return ptr[1] + (('[]', ptr[2]),)
        if ptr[0] == 'ite':
            return ('lite', ptr[1], self.base(ptr[2]), self.base(ptr[3]))
        if ptr[0] == 'lite': return ptr
        return (('deref', ptr),)

    def field(self, loc, name):
        if loc[0] == 'lite': return ('lite', loc[1], self.field(loc[2], name), self.field(loc[3], name))
        return loc + (name,)
    def elem(self, loc, i):
        if loc[0] == 'lite': return ('lite', loc[1], self.elem(loc[2], i), self.elem(loc[3], i))
        return loc + (('[]', i),)

    def addr(self, loc):
        if loc[0] == 'lite': return ite(loc[1], self.addr(loc[2]), self.addr(loc[3]))
        if isinstance(loc[-1], tuple) and loc[-1] and loc[-1][0] == '[]' and len(loc[-1]) > 1: return ('ptr', loc[:-1], loc[-1][1])
        if len(loc) == 1 and isinstance(loc[0], tuple) and loc[0][0] == 'deref': return loc[0][1]
        return ('addr', loc)

    def copy_obj(self, dst, src, ti, st, node=None, move=False):
        """memberwise copy of an object of type ti"""
        if src[0] == 'lite':
            s1 = st.fork(src[1]); s2 = st.fork(not_(src[1]))
            self.copy_obj(dst, src[2], ti, s1, node, move); self.copy_obj(dst, src[3], ti, s2, node, move)
            m = merge(s1, s2, self.default); st.store = m.store
            return
        if dst == src: return
        k = self.tk(ti)
        q = not self._interesting(dst)
        if k in ('vec', 'map', 'set', 'buf', 'std', 'stream', 'pair', 'closure', 'other'):
            sk, six = self.canon(src); dk, dix = self.canon(dst)
            suff = set()
            for key in list(st.store):
                if key[:len(sk)] == sk: suff.add(key[len(sk):])
                if key[:len(dk)] == dk: suff.add(key[len(dk):])
            suff |= set(self.suffixes(ti))
            new = {}
            for s in suff:
                a = st.store.get(sk + s)
                if a is None: a = self.default(sk + s)
                extra = sum(1 for x in s if x == ('[]',))
                if six: a = ('selp', a, six) if extra else sel(a, six)
                new[s] = a
            for s, a in new.items():
                extra = sum(1 for x in s if x == ('[]',))
                if dix:
                    old = st.store.get(dk + s)
                    if old is None: old = self.default(dk + s)
                    st.store[dk + s] = ('storep', old, dix, a) if extra else store(old, dix, a)
                else: st.store[dk + s] = a
            if not q: self.emit('write', st, node, loc=dst, key=dk, ix=dix, val=('obj', src), type=self.p.strip(ti)['s'] if isinstance(ti, int) else '')
            return
        if k == 'rec':
            r = self.recof(ti)
            for f in self.p.all_fields(r):
                self.copy_obj(self.field(dst, f['n']), self.field(src, f['n']), f['t'], st, node, move)
            return
        self.write(dst, self.read(src, st), st, node)

    def _interesting(self, loc):
        r = loc[0]
        return not (isinstance(r, tuple) and r and r[0] in ('var', 'tmp', 'lite'))

    def suffixes(self, ti):
        k = self.tk(ti)
        if k == 'buf': return [('#nch',), ('#nfr',), ('#s', ('[]',), ('[]',))]
        if k == 'vec':
            t = self.p.strip(ti)
            out = [('#size',)]
            et = self.elemtype(t)
            if et is not None: out += [(('[]',),) + s for s in self.suffixes(et)]
            return out
        if k == 'map': return [('#has', ('[]',)), (('[]',),)]
        if k == 'set': return [('#has', ('[]',))]
        if k == 'rec':
            r = self.recof(ti); out = []
            for f in self.p.all_fields(r): out += [(f['n'],) + s for s in self.suffixes(f['t'])]
            return out
        if k == 'std' or k == 'stream': return [('#state',)]
        if k in ('pair', 'closure', 'other'): return []
        return [()]

    def elemtype(self, t):
        if t['k'] == 'array': return t['to']
        if 'targs' in t:
            s = t['targs'][0]
            if not hasattr(self, '_tbyname'):
                self._tbyname = {x['s']: i for i, x in enumerate(self.p.types) if x}
            return self._tbyname.get(s)
        return None

    # ------------------------------------------------------------ running
    def run(self, fn, this=None, args=None, st=None, dyn=None):
        """analyses a function from an arbitrary initial state; returns (state, value)"""
        st = st or State()
        if this is not None and dyn is not None: self.dyn[this] = dyn
        fr = self.push(fn, this)
        self.bind_params(fr, fn, args, st)
        return self.finish(fr, fn, st)

    def push(self, fn, this):
        self.nframe += 1
        fr = Frame(fn, self.nframe, this)
        self.stack.append(fr); self.frame = fr
        return fr

    def pop(self):
        self.stack.pop(); self.frame = self.stack[-1] if self.stack else None

    def var(self, fr, d): return (('var', fr.uid, d['id'], d['n']),)

    def bind_params(self, fr, fn, args, st):
        for i, p in enumerate(fn['params']):
            t = self.p.ty(p['t'])
            v = args[i] if args is not None and i < len(args) else None
            isref = t['k'] in ('ref', 'rref')
            loc = self.var(fr, p)
            if v is None:
                v = (('P', p['n'] or 'arg%d' % i),)     # symbolic argument: a location of its own
                if isref: st.store[('&', loc[0])] = v
                else: self.copy_obj(loc, v, p['t'], st)
            elif isref: st.store[('&', loc[0])] = v
            else: self.bind_value(loc, v, p['t'], st)

    def bind_value(self, loc, v, ti, st):
        """v: value term, or ('obj', loc) for class objects"""
        if isinstance(v, tuple) and v and v[0] == 'obj': self.copy_obj(loc, v[1], ti, st)
        else: self.write(loc, v, st, None, quiet=True)

    def finish(self, fr, fn, st):
        if fn.get('kind') == 'ctor': self.ctor_inits(fn, fr.this, st)
        end = self.exec(fn['body'], st) if fn.get('body') else st
        if end is not None: fr.rets.append((end, ('none',)))
        self.pop()
        if not fr.rets: return None, ('none',)
        s, v = fr.rets[0]
        for s2, v2 in fr.rets[1:]:
            c = disc(s.pc, s2.pc) or ('uf', 'nondet', s.pc)
            v = self.mergeval(c, v, v2, s, s2)
            s = merge(s, s2, self.default)
        return s, v

    def mergeval(self, c, a, b, s1, s2):
        if a == b: return a
        if a[0] == 'none': return b
        if b[0] == 'none': return a
        if a[0] == 'obj' and b[0] == 'obj': return ('obj', ('lite', c, a[1], b[1]))
        if a[0] == 'loc' and b[0] == 'loc': return ('loc', ('lite', c, a[1], b[1]))
        if a[0] in ('obj', 'loc') or b[0] in ('obj', 'loc'): return a
        return ite(c, a, b)

    # ------------------------------------------------------------ constructors
    def ctor_inits(self, fn, this, st):
        done = set()
        for i in fn.get('inits', []):
            e = i['e']
            if i.get('deleg') or 'base' in i:
                if e and e['k'] == 'ctor': self.construct(this, e, st)
                continue
            self.init(this + (i['n'],), e, st, None)
            done.add(i['n'])
        r = self.p.recs.get(fn['cls'])

    def construct(self, loc, e, st):
        """runs a constructor expression on loc"""
        fid = e.get('fn'); f = self.p.fns.get(fid)
        k = self.tk(e['t'])
        if k in ('rec', 'closure') and f is not None:
            args = self.args(f, e['args'], st)
            self.inline(f, loc, args, st, e)
            return
        self.ctor_model(loc, e, st, k)

    def init(self, loc, e, st, ti):
        """initialises loc from expression e"""
        if e is None: return
        if e['k'] == 'ctor':
            # elidable copy of a temporary
            if e['ck'] in ('copy', 'move') and len(e['args']) >= 1 and e.get('elide') and not e['args'][0].get('lv'):
                return self.init(loc, e['args'][0], st, ti)
            return self.construct(loc, e, st)
        if e['k'] == 'init': return self.init_list(loc, e, st)
        k = self.tk(e['t'])
        if k in ('int', 'float', 'bool', 'enum', 'ptr', 'str', 'sptr', 'iter'):
            if e['k'] == 'zero':
                z = self.zero(e['t'])
                if k == 'sptr': z = NULL
                self.write(loc, z, st, e)
            else: self.write(loc, self.ev(e, st), st, e)
            return
        if e['k'] == 'zero': self.zero_init(loc, e['t'], st); return
        v = self.ev(e, st)
        if v[0] == 'obj': self.copy_obj(loc, v[1], e['t'], st, e, move=True)
        elif v[0] == 'loc': self.copy_obj(loc, v[1], e['t'], st, e)
        else: self.write(loc, v, st, e)

    def zero(self, ti):
        k = self.tk(ti)
        return {'float': ('flt', 0.0), 'bool': FALSE, 'ptr': NULL, 'sptr': NULL, 'str': ('str', '')}.get(k, ZERO)

    def zero_init(self, loc, ti, st):
        k = self.tk(ti)
        if k == 'rec':
            r = self.recof(ti)
            for f in self.p.all_fields(r): self.zero_init(loc + (f['n'],), f['t'], st)
        elif k == 'vec':
            t = self.p.strip(ti)
            if t['k'] == 'array': st.store[self.canon(loc + (('[]',),))[0]] = ('constarr', self.zero(t['to'])); st.store[loc + ('#size',)] = num(t.get('n', 0))
            else: self.write(loc + ('#size',), ZERO, st, None)
        elif k in ('map', 'set', 'buf', 'std', 'stream', 'pair', 'closure', 'other'): pass
        else: self.write(loc, self.zero(ti), st, None)

    def init_list(self, loc, e, st):
        t = self.p.strip(e['t'])
        if 'fields' in e:
            fs = e['fields']
            for i, f in enumerate(fs):
                if i < len(e['a']): self.init(loc + (f['n'],), e['a'][i], st, None)
            return
        if t['k'] == 'array':
            for i, a in enumerate(e['a']): self.init(loc + (('[]', num(i)),), a, st, None)
            self.write(loc + ('#size',), num(t.get('n', len(e['a']))), st, e)
            return
        if e['a']: self.init(loc, e['a'][0], st, None)
        else: self.zero_init(loc, e['t'], st)

    # ------------------------------------------------------------ calls
    def args(self, f, nodes, st):
        """argument values for inlining: locations for reference parameters, values otherwise"""
        out = []
        pts = f['params'] if f is not None and 'params' in f else None
        for i, n in enumerate(nodes):
            ref = True
            if pts is not None and i < len(pts): ref = self.p.ty(pts[i]['t'])['k'] in ('ref', 'rref')
            out.append(self.arg(n, ref, st))
        return out

    def arg(self, n, ref, st):
        if ref: return self.lv(n, st)
        v = self.ev(n, st)
        return v

    def inline(self, f, this, args, st, node):
        """st is updated in place; returns the value"""
        if len(self.stack) > 40 or sum(1 for x in self.stack if x.fn['id'] == f['id']) > 2: raise Giveup('recursion through ' + f['q'])
        pc0, asm0 = st.pc, st.asm
        fr = self.push(f, this)
        self.bind_params(fr, f, args, st)
        inner = st.fork()
        s, v = self.finish(fr, f, inner)
        if s is None: st.store = None; return ('none',)    # never returns normally
        st.store = s.store; st.asm = s.asm; st.pc = s.pc
        if self._refret(f) and v[0] not in ('loc',): v = ('loc', self.base(v)) if v[0] in ('addr', 'ptr') else v
        return v

    def _refret(self, f): return self.p.ty(f['rt'])['k'] in ('ref', 'rref')

    def alive(self, st): return st.store is not None

    # ------------------------------------------------------------ statements
    def exec(self, s, st):
        """executes s in st; returns the state of normal completion or None"""
        if s is None: return st
        if st is None or st.store is None: return None
        k = s['k']
        if k == 'seq':
            for x in s['b']:
                st = self.exec(x, st)
                if st is None or st.store is None: return None
            return st
        if k == 'expr':
            self.ev(s['e'], st)
            return st if st.store is not None else None
        if k == 'decl':
            for d in s['v']: self.decl(d, st)
            return st if st.store is not None else None
        if k == 'if':
            if s.get('init'): st = self.exec(s['init'], st)
            if s.get('var'): self.decl(s['var'], st)
            c = self.cond(s['c'], st)
            if st.store is None: return None
            if c == TRUE: return self.exec(s['a'], st)
            if c == FALSE: return self.exec(s['b'], st) if s.get('b') else st
            n0 = len(self.throws)
            r0 = self.exits()
            s1 = self.exec(s['a'], st.fork(c))
            t1 = self.exits() == r0
            r0 = self.exits()
            s2 = self.exec(s['b'], st.fork(not_(c))) if s.get('b') else st.fork(not_(c))
            t2 = self.exits() == r0
            return self.join(st, c, s1, t1, s2, t2)
        if k in ('for', 'while', 'do'): return self.loop(s, st)
        if k == 'rfor': return self.rangefor(s, st)
        if k == 'switch': return self.switch(s, st)
        if k == 'break': self.frame.brk[-1].append(st); return None
        if k == 'cont': self.frame.cont[-1].append(st); return None
        if k == 'ret':
            fr = self.frame
            v = ('none',)
            if s.get('e') is not None:
                if self._refret(fr.fn): v = ('loc', self.lv(s['e'], st))
                elif self.tk(fr.fn['rt']) in ('rec', 'vec', 'map', 'set', 'buf', 'std', 'pair', 'closure', 'stream'):
                    e = s['e']
                    loc = self.tmp()
                    self.init(loc, e, st, fr.fn['rt'])
                    v = ('obj', loc)
                else: v = self.ev(s['e'], st)
            if st.store is None: return None
            fr.rets.append((st, v)); return None
        if k == 'nullstmt': return st
        if k == 'try': return self.trystmt(s, st)
        self.warn.append(('stmt', k, s.get('cls'), self.where(s)))
        raise Giveup('statement ' + str(s.get('cls')))

    def exits(self):
        """number of non-throwing ways out recorded so far in this frame"""
        return (len(self.frame.rets), sum(len(x) for x in self.frame.brk), sum(len(x) for x in self.frame.cont))

    def join(self, st, c, s1, only_throw1, s2, only_throw2):
        a1 = s1 is not None and s1.store is not None; a2 = s2 is not None and s2.store is not None
        if not a1 and not a2: return None
        if a1 and a2:
            m = merge(s1, s2, self.default)
            return m
        s, cc, ot = (s2, not_(c), only_throw1) if a2 else (s1, c, only_throw2)
        if ot:   # the other side always throws: a checked fact rather than a branch
            s.asm = s.asm + (cc,)
            s.pc = self.without(s.pc, st.pc, cc)
        return s

    def without(self, pc, pc0, cc):
        A = set(pc[1:]) if pc[0] == 'and' else {pc}
        B = set(cc[1:]) if cc[0] == 'and' else {cc}
        Z = set(pc0[1:]) if pc0[0] == 'and' else {pc0}
        r = A - (B - Z)
        return and_(*r) if (A - r) else pc

    def decl(self, d, st):
        t = self.p.ty(d['t'])
        if d.get('static') or d.get('tls'):
            root = ('static', d['id'], d['n'])
            st.store[('&', ('var', self.frame.uid, d['id'], d['n']))] = (root,)
            return
        loc = self.var(self.frame, d)
        if t['k'] in ('ref', 'rref'):
            st.store[('&', loc[0])] = self.lv(d['init'], st); return
        key = loc
        for k in [k for k in st.store if k and k[0] == loc[0]]: del st.store[k]
        st.store.pop(('&', loc[0]), None)
        self.emit('decl', st, d, loc=loc)
        if d.get('init') is not None: self.init(loc, d['init'], st, d['t'])
        elif self.tk(d['t']) not in ('int', 'float', 'bool', 'enum', 'ptr'): 
            if self.tk(d['t']) == 'vec' and self.p.strip(d['t'])['k'] == 'array': self.write(loc + ('#size',), num(self.p.strip(d['t']).get('n', 0)), st, d, quiet=True)

    def cond(self, e, st):
        return self.tobool(self.ev(e, st))

    def tobool(self, v):
        if v[0] in ('obj', 'loc'): return ('uf', 'truth', v)
        if v == ('none',): return ('uf', 'truth', v)
        if isbool(v): return v
        if isnum(v): return num(v[1] != 0)
        if v[0] == 'null': return FALSE
        if v[0] in ('addr', 'ptr', 'new', 'lam', 'fn', 'str'): return TRUE
        if v[0] == 'ite': return ite(v[1], self.tobool(v[2]), self.tobool(v[3]))
        return v

    def switch(self, s, st):
        if s.get('var'): self.decl(s['var'], st)
        c = self.ev(s['c'], st)
        if st.store is None: return None
        items = []
        def flat(x):
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(x); x = x['s']
            items.append((labels, x))
        body = s['body']
        for x in (body['b'] if body['k'] == 'seq' else [body]): flat(x)
        cases = {}
        hasdef = False
        for labels, _ in items:
            for l in labels:
                if l['k'] == 'default': hasdef = True
                else: cases[id(l)] = eq(c, self.ev(l['v'], st))
        anyc = or_(*cases.values())
        exhaustive = False
        t = self.p.strip(s['c']['t']) if 't' in s['c'] else {}
        n = s['c']
        while n.get('k') == 'cast': n = n['e']; t = self.p.strip(n['t'])
        if t.get('k') == 'enum' and t['q'] in self.p.enums:
            vals = {x['v'] for x in self.p.enums[t['q']]['consts']}
            seen = set()
            for labels, _ in items:
                for l in labels:
                    if l['k'] == 'case':
                        v = self.ev(l['v'], st)
                        if isnum(v): seen.add(v[1])
            exhaustive = vals <= seen
        self.frame.brk.append([])
        cur = None
        base = st.fork()
        for labels, x in items:
            if labels:
                g = FALSE
                for l in labels: g = or_(g, not_(anyc) if l['k'] == 'default' else cases[id(l)])
                cur = merge(cur, base.fork(g), self.default) if g != FALSE else cur
            if cur is not None and x is not None: cur = self.exec(x, cur)
        outs = self.frame.brk.pop()
        if not hasdef and not exhaustive and not_(anyc) != FALSE: outs.append(base.fork(not_(anyc)))
        if not hasdef and not exhaustive: self.emit('switch_gap', st, s, c=c)
        for o in outs: cur = merge(cur, o, self.default) if cur is not None else o
        if cur is not None and (exhaustive or hasdef): cur.pc = self.weaken(cur.pc, base.pc, cases.values())
        return cur

    def weaken(self, pc, pc0, alts):
        """an exhaustive switch completes on every path: drop the disjunction of its labels"""
        d = or_(*alts)
        A = set(pc[1:]) if pc[0] == 'and' else {pc}
        if d in A: return and_(*(A - {d}))
        return pc

    def trystmt(self, s, st):
        n0 = len(self.throws)
        self.trystack.append([])
        st0 = st.fork()
        end = self.exec(s['body'], st.fork())
        may = self.trystack.pop()
        mine = self.throws[n0:]; del self.throws[n0:]
        outs = [end] if end is not None and end.store is not None else []
        handlers = s['catch']
        self.emit('try', st, s, may=tuple(may), handlers=[self.p.types[h['t']]['s'] if h['t'] >= 0 else '...' for h in handlers])
        # opaque calls that may raise anything
        for (est, evid) in may:
            rest = est.fork(('throws', evid))
            for h in handlers:
                ty = '...' if h['t'] < 0 else self.p.strip(h['t'])['s'].replace('const ', '')
                g = TRUE if ty == '...' else ('isa', evid, ty)
                hs = rest.fork(g)
                rest = rest.fork(not_(g)) if g != TRUE else None
                if h.get('var'):
                    loc = (('deref', ('exc', evid)),)
                    st_ = hs
                    st_.store[('&', ('var', self.frame.uid, h['var']['id'], h['var']['n']))] = loc
                r = self.exec(h['body'], hs)
                if r is not None: outs.append(r)
                if rest is None: break
            if rest is not None: self.throws.append((rest, 'unknown', ('exc', evid), s.get('l'), evid))
            # normal completion only if nothing was thrown
        if end is not None and end.store is not None:
            for (_, evid) in may: end.pc = and_(end.pc, not_(('throws', evid)))
        for t in mine:
            tst, ty = t[0], t[1]
            caught = False
            for h in handlers:
                hty = '...' if h['t'] < 0 else self.p.strip(h['t'])['s'].replace('const ', '')
                if hty == '...' or self.isa(ty, hty):
                    if h.get('var'): tst.store[('&', ('var', self.frame.uid, h['var']['id'], h['var']['n']))] = (('deref', ('exc', t[4])),)
                    r = self.exec(h['body'], tst)
                    if r is not None: outs.append(r)
                    caught = True; break
            if not caught: self.throws.append(t)
        cur = None
        for o in outs: cur = merge(cur, o, self.default) if cur is not None else o
        return cur

    STDEXC = {'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'], 'std::invalid_argument': ['std::logic_error', 'std::exception'], 'std::out_of_range': ['std::logic_error', 'std::exception'], 'std::bad_alloc': ['std::exception']}
    def isa(self, ty, base):
        ty = ty.split('::', 0)[0]
        if ty == base: return True
        if base in self.STDEXC.get(ty, []): return True
        for r in self.p.recq.get(ty, []):
            for b in r.get('bases', []):
                if self.isa(b['q'], base): return True
        return False

    # ------------------------------------------------------------ loops
    def loop(self, s, st):
        k = s['k']
        if k == 'do' and const_false(s['c']):
            # do { ... } while (0): a block that can be left early
            self.frame.brk.append([]); self.frame.cont.append([])
            e = self.exec(s['body'], st)
            for y in self.frame.brk.pop() + self.frame.cont.pop():
                e = merge(e, y, self.default) if e is not None and e.store is not None else y
            return e if e is not None and e.store is not None else None
        if k == 'for' and s.get('init'): 
            st = self.exec(s['init'], st)
            if st is None: return None
        def cond(x):
            if s.get('var'): self.decl(s['var'], x)
            if s.get('c') is None: return TRUE
            return self.cond(s['c'], x)
        body = lambda x: self.exec(s['body'], x)
        inc = (lambda x: (self.ev(s['inc'], x), x)[1]) if s.get('inc') else None
        return self.loopfork(s, st, lambda x: self.genloop(s, x, cond, body, inc, post=(k == 'do')))

    def loopfork(self, s, st, run):
        """a loop over one of two containers: one loop for each"""
        used = set()
        def see(n):
            if 'd' in n and 'n' in n: used.add(n.get('d'))
        for x in (s.get('c'), s.get('inc')): walk(x, see)
        for key, v in st.store.items():
            r = key[0]
            if not (isinstance(r, tuple) and len(r) == 4 and r[0] == 'var' and r[1] == self.frame.uid and r[2] in used and len(key) == 1): continue
            if v[0] == 'ite' and v[2][0] in ('ptr', 'ite') and v[3][0] in ('ptr', 'ite'):
                a = self.loopfork(s, self.resolved(st, v[1], True), run); b = self.loopfork(s, self.resolved(st, v[1], False), run)
                return merge(a, b, self.default) if a is not None and b is not None else (a or b)
        return run(st)
    def resolved(self, st, c, truth):
        m = {c: num(truth), not_(c): num(not truth)}
        def loc(l):
            if l[0] == 'lite':
                if l[1] == c: return loc(l[2] if truth else l[3])
                return ('lite', l[1], loc(l[2]), loc(l[3]))
            return l
        return State({k: (loc(v) if k[0] == '&' else subst(v, m)) for k, v in st.store.items()}, and_(st.pc, c if truth else not_(c)), st.asm)

    def rangefor(self, s, st):
        rl = self.lv(s['range'], st)
        if st.store is None: return None
        if rl[0] == 'lite':
            s1 = st.fork(rl[1]); s2 = st.fork(not_(rl[1]))
            s1 = self.rangefor_on(s, s1, rl[2]); s2 = self.rangefor_on(s, s2, rl[3])
            return merge(s1, s2, self.default) if s1 is not None and s2 is not None else (s1 or s2)
        return self.rangefor_on(s, st, rl)

    def rangefor_on(self, s, st, rl):
        kind = self.tk(s['rt'])
        d = s['var']; t = self.p.ty(d['t'])
        isref = t['k'] in ('ref', 'rref')
        n = self.nloop + 1
        kv = (('var', self.frame.uid, -n, '#i'),)
        st.store[kv] = ZERO
        if kind == 'vec': size = self.read(self.field(rl, '#size'), st)
        elif kind in ('map', 'set'): size = ('uf', 'msize', self.read_arr(rl + ('#has', ('[]',)), st)); size = ZERO if size[2] == ('constarr', FALSE) else size
        elif kind == 'buf': raise Giveup('range for over buffer')
        else: size = ('uf', 'rsize', ('addr', rl))
        def cond(x): return lt(self.read(kv, x), size)
        def body(x):
            i = self.read(kv, x)
            if kind == 'vec': el = self.elem(rl, i)
            elif kind == 'map':
                has = self.read_arr(rl + ('#has', ('[]',)), x)
                key = ('uf', 'mkey', has, i)
                el = self.mapel(rl, key)
            elif kind == 'set':
                el = self.tmp(); x.store[el] = ('uf', 'mkey', self.read_arr(rl + ('#has', ('[]',)), x), i)
            else: el = rl + (('[]', i),)
            loc = self.var(self.frame, d)
            for k in [k for k in x.store if k and k[0] == loc[0]]: del x.store[k]
            if isref: x.store[('&', loc[0])] = el
            else: x.store.pop(('&', loc[0]), None); self.copy_obj(loc, el, d['t'], x, s)
            return self.exec(s['body'], x)
        def inc(x):
            self.write(kv, add(self.read(kv, x), ONE), x, s); return x
        return self.genloop(s, st, cond, body, inc, over=rl)

    def mapel(self, m, key): return ('#mapel', m, key)

    def read_arr(self, loc, st):
        key, ix = self.canon(loc)
        a = st.store.get(key)
        return a if a is not None else self.default(key)

    def genloop(self, node, st, cond, body, inc, post=False, over=None):
        self.nloop += 1
        L = self.nloop
        lp = Loop(L); lp.file, lp.line = self.where(node); lp.parent = self.loopstack[-1] if self.loopstack else None; lp.pc = st.pc; lp.asm = st.asm; lp.over = over; lp.post = post; lp.stack = tuple(x.fn['q'] for x in self.stack); lp.node = node
        init = {}
        spec = {}          # key -> ('inv',) | ('iv', step) | ('ptriv', base, step) | ('phi',) | closed forms
        nframe0 = self.nframe; nid0 = self.nid
        self.loopnid[L] = nid0
        logging = self.logging; nloop0 = self.nloop
        kap = ('kap', L)
        pc0 = st.pc
        base_store = st.store

        def phival(key):
            i0 = base_store.get(key)
            if i0 is None: i0 = self.default(key)
            sp = spec[key]
            if sp[0] == 'inv': return i0
            if sp[0] == 'iv': return add(i0, mul(sp[1], kap))
            if sp[0] == 'piv': return i0[:2] + (add(i0[2], mul(sp[1], kap)),) + i0[3:]
            if sp[0] == 'pphi': return i0[:2] + (('phi', L, key),) + i0[3:]
            if sp[0] == 'const': return ite(lt(ZERO, kap), sp[1], i0)      # value from the second iteration on
            return ('phi', L, key)

        def one(logit):
            self.logging = logit and logging
            self.loopstack.append(L)
            self.frame.brk.append([]); self.frame.cont.append([])
            rets0 = self.frame.rets; self.frame.rets = []
            thr0 = len(self.throws)
            may0 = len(self.trystack[-1]) if self.trystack else 0
            x = State(dict(base_store), TRUE, st.asm)
            for key in spec: x.store[key] = phival(key)
            start = dict(x.store)
            if post: c = TRUE
            else: c = cond(x)
            head = State(dict(x.store), TRUE, x.asm) if x.store is not None else None
            if x.store is not None and c != FALSE:
                # the loop condition is a fact inside the body, not a branch
                x.pc = TRUE
                x.asm = x.asm + tuple(c[1:] if c[0] == 'and' else ([c] if c != TRUE else []))
                e = body(x)
            else: e = None
            for y in self.frame.cont[-1]: e = merge(e, y, self.default)
            pcend = e.pc if e is not None and e.store is not None else FALSE
            if e is not None and e.store is not None and inc: e = inc(e)
            if post and e is not None and e.store is not None:
                c = cond(e)
            brk = self.frame.brk.pop(); self.frame.cont.pop()
            rets = self.frame.rets; self.frame.rets = rets0
            thr = self.throws[thr0:]; del self.throws[thr0:]
            if self.trystack:
                may = self.trystack[-1][may0:]; del self.trystack[-1][may0:]
                if logit: self.trystack[-1] += [(State(s.store, and_(pc0, ('exists', L, s.pc)), st.asm), i) for s, i in may]
            self.loopstack.pop()
            self.logging = logging
            if e is not None and e.store is None: e = None
            return start, c, head, e, brk, rets, thr

        def own(key):
            r = key[0]
            if r == '&': r = key[1]
            if isinstance(r, tuple) and r:
                if r[0] == 'var' and r[1] > nframe0: return True
                if r[0] in ('tmp', 'new') and r[1] > nid0: return True
                if r[0] == 'new' : return False
            return False

        declared = set()
        for _ in range(12):
            saved = (self.nid, self.nframe, self.nloop)
            start, c, head, e, brk, rets, thr = one(False)
            changed = False
            ends = [x for x in [e] if x is not None]
            if e is None:
                for key in list(spec): pass
            for x in ends:
                for key, v in x.store.items():
                    if own(key) or key[0] == '&' or key in declared: continue
                    old = start.get(key)
                    if old is None: old = self.default(key)
                    if old[0] == 'undef' and key not in spec and key not in base_store and not (('[]',) in key and any(key[:key.index(('[]',))] + x in base_store for x in (('#size',), ('#has', ('[]',))))):
                        continue            # declared inside the loop
                    if v == old: continue
                    if key not in spec:
                        i0 = base_store.get(key)
                        spec[key] = ('pphi',) if i0 is not None and i0[0] in ('rit', 'mpos') and v[0] == i0[0] and v[1] == i0[1] else ('phi',); changed = True
            if not changed and e is not None:
                for key in list(spec):
                    if spec[key][0] not in ('phi', 'pphi'): continue
                    i0 = base_store.get(key)
                    if i0 is None: i0 = self.default(key)
                    cur = start[key]; nxt = e.store.get(key, cur)
                    if nxt == cur: spec[key] = ('inv',); changed = True; continue
                    if spec[key][0] == 'phi' and i0[0] == 'ptr' and nxt[0] == 'uf' and nxt[1] == 'padd' and nxt[2] == cur:
                        spec[key] = ('pphi',); changed = True; continue
                    if spec[key][0] == 'pphi':
                        if nxt[0] == i0[0] and nxt[1] == i0[1]:
                            d = sub(nxt[2], cur[2])
                            if self.invariant(d, L): spec[key] = ('piv', d); changed = True
                        continue
                    if isnum(cur) or cur[0] == 'phi':
                        d = sub(nxt, cur) if not isbool(nxt) and nxt[0] not in ('str', 'ptr', 'addr', 'null', 'store', 'upd', 'cat') else None
                        if d is not None and self.invariant(d, L): spec[key] = ('iv', d); changed = True
            self.lastchange = dict(spec)
            if not changed: break
            self.nid, self.nframe, self.nloop = saved
        else:
            self.warn.append(('loop did not stabilise', self.where(node)))
        # final pass
        self.nid, self.nframe, self.nloop = saved
        start, c, head, e, brk, rets, thr = one(True)
        lp.cond = c
        self.loops[L] = lp
        for key in spec:
            if spec[key][0] in ('phi', 'pphi'):
                i0 = base_store.get(key)
                if i0 is None: i0 = self.default(key)
                nxt = e.store.get(key, start[key]) if e is not None else start[key]
                lp.phis[key] = (i0, nxt)
        lp.ivs = {k: (base_store.get(k) or self.default(k), v[1]) for k, v in spec.items() if v[0] in ('iv', 'piv')}
        early = []
        bc = or_(*[b.pc for b in brk if b.store is not None]) if brk else FALSE
        rc = or_(*[r[0].pc for r in rets]) if rets else FALSE
        lp.brk = bc; lp.ret = rc
        lp.exitcond = or_(bc, rc)
        for cj in (c[1:] if c[0] == 'and' else (c,)):
            t = self.trip(cj, L)
            if t is not None: lp.conds.append(t)
        if e is None and not brk: pass
        conj = c[1:] if c[0] == 'and' else (c,)
        if len(conj) == 1 and lp.conds and not post: lp.T = lp.conds[0]
        if post and len(conj) == 1 and lp.conds: lp.T = None
        # ---- state after the loop
        kx = ('kx', L)
        at_break = {kap: kx}
        def outval(key):
            sp = spec[key]
            i0 = base_store.get(key)
            if i0 is None: i0 = self.default(key)
            if sp[0] == 'inv': return i0
            KT = lp.T if lp.T is not None and bc == FALSE else None
            if sp[0] == 'iv':
                if KT is not None: return add(i0, mul(sp[1], self.tripval(KT)))
                return add(i0, mul(sp[1], ('kn', L)))
            if sp[0] == 'piv': return i0[:2] + (add(i0[2], mul(sp[1], self.tripval(KT) if KT is not None else ('kn', L))),) + i0[3:]
            if sp[0] == 'pphi': return i0[:2] + (('lo', L, key),) + i0[3:]
            nxt = lp.phis[key][1]
            cf = self.closed(L, key, start[key], nxt, i0, lp, bc)
            return cf if cf is not None else ('lo', L, key)
        out = None
        throwfacts = []
        if head is not None and c != TRUE or post:
            hs = dict(base_store)
            m = {}
            for key in spec:
                hs[key] = outval(key)
                if spec[key][0] in ('phi',): m[('phi', L, key)] = hs[key]
                if spec[key][0] == 'pphi': m[('phi', L, key)] = ('lo', L, key)
            # side effects of the condition
            if not post and head is not None:
                for key, v in head.store.items():
                    if own(key) or key[0] == '&': continue
                    o = start.get(key)
                    if o is None: o = self.default(key)
                    if v != o and key in spec:
                        kk = self.tripval(lp.T) if lp.T is not None and bc == FALSE else ('kn', L)
                        hs[key] = subst(v, {**m, kap: kk})
            out = State(hs, pc0, st.asm)
        # exits by break
        bst = None
        m = {kap: kx}
        for b in brk:
            if b.store is None: continue
            bs = {k: (subst(v, m) if isinstance(v, tuple) and k[0] != '&' else v) for k, v in b.store.items() if not own(k)}
            x = State(bs, b.pc, st.asm)
            bst = merge(bst, x, self.default) if bst is not None else x
        if rc != FALSE:
            xr = ('exists', L, rc)
            for rs, v in rets:
                rs2 = State({k: (subst(x, m) if isinstance(x, tuple) and k[0] != '&' else x) for k, x in rs.store.items() if not own(k)}, and_(pc0, ('exists', L, rs.pc)), st.asm)
                v2 = subst(v, m)
                self.frame.rets.append((rs2, v2))
            if out is not None: out.pc = and_(out.pc, not_(xr))
        if bst is not None:
            xb = ('exists', L, bc)
            if out is not None:
                o1 = State(bst.store, and_(out.pc, xb), st.asm); out = State(out.store, and_(out.pc, not_(xb)), st.asm)
                out = merge(o1, out, self.default)
                if out.pc != pc0: pass
            else: out = State(bst.store, pc0 if rc == FALSE else and_(pc0, not_(('exists', L, rc))), st.asm)
        for t in thr:
            ts = t[0]
            if ts.store is None: continue
            ts2 = State(ts.store, and_(pc0, ('exists', L, ts.pc)), st.asm)
            self.throws.append((ts2,) + t[1:])
        # facts established in every completed iteration
        if out is not None and e is not None:
            cs = tuple(c[1:] if c[0] == 'and' else ([c] if c != TRUE else []))
            for f in e.asm:
                if f not in st.asm and f not in cs: throwfacts.append(('forall', L, f))
            out.asm = out.asm + tuple(throwfacts)
        lp.end = e; lp.head = head
        return out

    def tripval(self, t):
        return t

    def invariant(self, d, L):
        n0 = self.loopnid.get(L, -1)
        return not mentions(d, lambda x: (x[0] in ('phi', 'kap') and x[1] == L) or x[0] == 'undef' or (x[0] in ('ev', 'evout') and x[1] > n0))

    def trip(self, c, L):
        """number of iterations for which condition c (in terms of kap L) holds, if c bounds it"""
        k = ('kap', L)
        if c[0] == 'not' and c[1][0] == 'eq':
            a, b = c[1][1], c[1][2]
            for x, y in ((a, b), (b, a)):
                if mentions(x, lambda z: z == k) and self.invariant(y, L):
                    r = sub(x, k)
                    if self.invariant(r, L): return sub(y, r)
                    r = add(x, k)
                    if self.invariant(r, L): return sub(r, y)
            return None
        neg_ = False
        if c[0] == 'not' and c[1][0] in ('lt', 'le'):
            o = c[1]; c = ('le', o[2], o[1]) if o[0] == 'lt' else ('lt', o[2], o[1])
        if c[0] not in ('lt', 'le'): return None
        d = sub(c[2], c[1])          # d > 0 or d >= 0
        r = add(d, k)
        if self.invariant(r, L): return r if c[0] == 'lt' else add(r, ONE)
        # step other than one: d = r - s*k
        if d[0] == 'add' or d[0] == 'mul':
            for x in T._lin(d):
                if x[0] == k and isinstance(x[1], int) and x[1] < 0:
                    r = add(d, mul(num(-x[1]), k))
                    if self.invariant(r, L):
                        return ('ceildiv', r if c[0] == 'lt' else add(r, ONE), num(-x[1]))
                if x[0] is not None and x[0][0] == 'prod' and k in x[0][1:] and x[1] == -1:
                    fs = [y for y in x[0][1:] if y != k]
                    if len(fs) == len(x[0]) - 2:
                        s = ONE
                        for y in fs: s = mul(s, y)
                        r = add(d, mul(s, k))
                        if self.invariant(r, L) and self.invariant(s, L): return ('ceildiv', r if c[0] == 'lt' else add(r, ONE), s)
        return None

    def closed(self, L, key, phi, nxt, init, lp, bc):
        """closed form of a recurrence after the loop"""
        if bc != FALSE and nxt[0] not in ('store', 'upd'): 
            pass
        # any / all
        if nxt[0] == 'or' and phi in nxt[1:] :
            p = or_(*[x for x in nxt[1:] if x != phi])
            if not self.mentions_phi(p, L) : return or_(init, ('exists', L, p))
        if nxt[0] == 'and' and phi in nxt[1:]:
            p = and_(*[x for x in nxt[1:] if x != phi])
            if not self.mentions_phi(p, L): return and_(init, not_(('exists', L, not_(p))))
        if nxt[0] == 'ite':
            c, a, b = nxt[1:]
            if b == phi and isconst(a) and not self.mentions_phi(c, L): return ite(('exists', L, c), a, init)
            if a == phi and isconst(b) and not self.mentions_phi(c, L): return ite(('exists', L, not_(c)), b, init)
        # running maximum
        if nxt[0] == 'max' and phi in nxt[1:]:
            v = [x for x in nxt[1:] if x != phi]
            if len(v) == 1 and not self.mentions_phi(v[0], L): return ('red', 'max', L, v[0], init)
        # arrays
        if nxt[0] in ('store', 'upd', 'ite'):
            u = self.as_update(self.selfread(nxt, phi, init, L), phi, L)
            if u is not None:
                loops, idx, v, g, Ts = u
                if all(t is not None for t in Ts):
                    T_ = lp.T if bc == FALSE else None
                    return ('upd', init, (L,) + loops, idx, v, g, (T_,) + Ts)
        return None

    def as_update(self, nxt, phi, L):
        if nxt[0] == 'store' and nxt[1] == phi:
            v = self.selfsel(nxt[3], phi, nxt[2]); 
            if v is None or self.mentions_phi(v, L): return None
            return ((), nxt[2], v, TRUE, ())
        if nxt[0] == 'upd' and nxt[1] == phi:
            if self.mentions_phi(nxt[4], L) or self.mentions_phi(nxt[5], L): return None
            return (nxt[2], nxt[3], nxt[4], nxt[5], nxt[6])
        if nxt[0] == 'ite':
            c, a, b = nxt[1:]
            if self.mentions_phi(c, L): return None
            if b == phi:
                u = self.as_update(a, phi, L)
                if u: return (u[0], u[1], u[2], and_(u[3], c), u[4])
            if a == phi:
                u = self.as_update(b, phi, L)
                if u: return (u[0], u[1], u[2], and_(u[3], not_(c)), u[4])
        return None

    def selfsel(self, v, phi, idx):
        return v
    def selfread(self, nxt, phi, init, L):
        """an element read in the same iteration that (alone) writes it still has its initial value"""
        idxs = [x[2] if x[0] == 'store' else x[3] for x in subterms(nxt) if x[0] in ('store', 'upd') and x[1] == phi]
        if len(set(idxs)) != 1: return nxt
        idx = idxs[0]; k = ('kap', L)
        if not any(mentions(c, lambda x: x == k) and not mentions(sub(c, k), lambda x: x == k) for c in idx[1:]): return nxt
        return subst(nxt, {('sel', phi, idx): sel(init, idx)})
    def mentions_phi(self, t, L): return mentions(t, lambda x: x[0] == 'phi' and x[1] == L)

from . import expr  # noqa: installs expression evaluation
