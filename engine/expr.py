"""Expression evaluation and models of the standard library."""
import struct
from .term import *
from . import term as T
from . import eval as E
from .eval import Engine, State, merge, isbool, Giveup, SMART, STREAM, VEC_STD

PURE = {'sin', 'cos', 'tan', 'exp', 'log', 'log10', 'log2', 'pow', 'fmod', 'remainder', 'round', 'floor', 'ceil', 'trunc', 'sqrt', 'isfinite', 'isinf', 'signbit', 'lround', 'llround', 'rint', 'nearbyint', 'atan', 'atan2', 'hypot', 'copysign', 'expm1', 'log1p', 'isalpha', 'toupper', 'tolower', 'ldexp', 'cosh', 'sinh', 'tanh', 'asin', 'acos', 'exp2', 'cbrt', 'isdigit', 'isspace', 'isprint', 'to_string'}

def const_of(e, self):
    if 'cv' not in e: return None
    k = self.tk(e['t'])
    v = e['cv']
    if k == 'bool': return ('bool', v not in ('0',))
    if k in ('int', 'enum'): return ('int', int(v))
    if k == 'float': return ('flt', float(v))
    return None

def cat(*xs):
    out = []
    for x in xs:
        if x[0] == 'cat': out += x[1:]
        elif x == ('str', ''): continue
        else: out.append(x)
    r = []
    for x in out:
        if r and r[-1][0] == 'str' and x[0] == 'str': r[-1] = ('str', r[-1][1] + x[1])
        else: r.append(x)
    if not r: return ('str', '')
    return r[0] if len(r) == 1 else ('cat',) + tuple(r)

def empty(s):
    if s[0] == 'str': return num(s[1] == '')
    if s[0] == 'cat':
        if any(x[0] == 'str' and x[1] for x in s[1:]): return FALSE
        if any(x[0] == 'ite' and empty(x) == FALSE for x in s[1:]): return FALSE
        return ('empty', s)
    if s[0] == 'ite': return ite(s[1], empty(s[2]), empty(s[3]))
    if s[0] == 'uf' and s[1] == 'to_string': return FALSE
    return ('empty', s)

def side_effects(e):
    found = []
    def f(n):
        if n['k'] in ('asg', 'new', 'del', 'throw', 'lambda', 'icall', 'ctor') or (n['k'] == 'un' and n['op'] in ('++', '--')): found.append(1)
        if n['k'] == 'call' : found.append(1)
    E.walk(e, f)
    return bool(found)

def ev(self, e, st):
    if st.store is None: return ('none',)
    c = const_of(e, self)
    if c is not None: return c
    if e.get('lv') and e['k'] not in ('str',):
        if e['k'] == 'ref' and e.get('dk') == 'func': return ('fn', e['fn'], e['q'])
        l = self.lv(e, st)
        k = self.tk(e['t'])
        if k in ('int', 'float', 'bool', 'enum', 'ptr', 'str', 'sptr', 'iter', 'closure'): return self.read(l, st)
        return ('loc', l)
    k = e['k']
    f = EV.get(k)
    if f is None: raise Giveup('expression %s %s' % (k, e.get('cls')))
    return f(self, e, st)

def rv(self, e, st):
    """value term of an expression of a scalar-like type"""
    v = self.ev(e, st)
    if v[0] == 'loc' or v[0] == 'obj': return self.read(v[1], st)
    return v

def lv(self, e, st):
    """location of a glvalue (or of a temporary holding a prvalue)"""
    if st.store is None: return (('dead',),)
    k = e['k']
    if k == 'ref':
        if e['dk'] in ('local', 'param'):
            r = ('var', self.frame.uid, e['d'], e['n'])
            b = st.store.get(('&', r))
            return b if b is not None else (r,)
        if e['dk'] == 'static':
            r = ('var', self.frame.uid, e['d'], e['n'])
            b = st.store.get(('&', r))
            return b if b is not None else (('static', e['d'], e['n']),)
        if e['dk'] == 'global': return (('global', e['d'], e['n']),)
        if e['dk'] == 'func':
            t = self.tmp(); st.store[t] = ('fn', e['fn'], e['q']); return t
        if e['dk'] == 'enum': pass
    if k == 'mem':
        if e.get('arrow'): b = self.base(self.ptrval(e['b'], st))
        else: b = self.lv(e['b'], st)
        return self.field(b, e['n'])
    if k == 'this': 
        t = self.tmp(); st.store[t] = ('addr', self.frame.this); return t
    if k == 'idx':
        b = self.ptrval(e['b'], st); i = self.rv(e['i'], st)
        if self.access: self.accessed(e, st, b, i, ONE)
        return self.ptrelem(b, i)
    if k == 'un' and e['op'] == '*':
        p = self.ptrval(e['e'], st)
        if self.access and p[0] in ('ptr', 'ite'): self.accessed(e, st, p, ZERO, ONE)
        if p[0] not in ('addr', 'ptr', 'ite', 'lite') and self.tk(e['t']) in ('int', 'float', 'bool', 'ptr'): return self.ptrelem(p, ZERO)
        return self.base(p)
    if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
        l = self.lv(e['e'], st); v = self.read(l, st)
        self.write(l, self.step(v, e['op']), st, e); return l
    if k == 'asg': return self.assign(e, st)
    if k == 'cond':
        c = self.cond(e['c'], st)
        if c == TRUE: return self.lv(e['a'], st)
        if c == FALSE: return self.lv(e['b'], st)
        s1 = st.fork(c); s2 = st.fork(not_(c))
        a = self.lv(e['a'], s1); b = self.lv(e['b'], s2)
        if s1.store is None or s2.store is None:
            s = s2 if s1.store is None else s1
            st.store = s.store; return b if s1.store is None else a
        m = merge(s1, s2, self.default); st.store = m.store; st.asm = m.asm
        return a if a == b else ('lite', c, a, b)
    if k == 'bin' and e['op'] == ',':
        self.ev(e['a'], st); return self.lv(e['b'], st)
    if k == 'cast' and e.get('lv') and e['ck'] != 'LValueToRValue': return self.lv(e['e'], st)
    if k in ('call', 'icall'):
        v = self.call(e, st)
        if v[0] in ('loc', 'obj'): return v[1]
        if e.get('lv') and v[0] in ('ev', 'uf', 'in', 'sel'): return (('deref', v),)
        t = self.tmp(); 
        if st.store is not None: st.store[t] = v
        return t
    if k == 'str':
        t = self.tmp(); st.store[t] = ('str', e['v']); return t
    if k == 'init' or k == 'ctor' or k == 'stdinit':
        t = self.tmp(); self.init(t, e, st, e['t']); return t
    v = self.ev(e, st)
    if v[0] in ('loc', 'obj'): return v[1]
    t = self.tmp()
    if st.store is not None: st.store[t] = v
    return t

def accessed(self, e, st, p, i, cnt, pc=TRUE):
    """records that cnt elements are accessed from the i-th one behind a pointer"""
    if st.store is None or p[0] == 'addr' or p == ('null',) and cnt == ZERO: return
    if p[0] == 'ite':
        self.accessed(e, st, p[2], i, cnt, and_(pc, p[1])); self.accessed(e, st, p[3], i, cnt, and_(pc, not_(p[1]))); return
    kw = dict(ptr=p, i=i, cnt=cnt, guard=pc, n=None, what='?')
    if p[0] == 'ptr':
        l = p[1]; kw['i'] = add(p[2], i)
        if len(l) > 2 and l[-2] == '#s': kw.update(n=self.read(l[:-2] + ('#nfr',), st), what='frame')
        elif l[-1] == '#s': kw.update(n=self.read(l[:-1] + ('#nch',), st), what='channel')
        elif not (len(l) == 1 and isinstance(l[0], tuple) and l[0][0] == 'deref'): kw.update(n=self.read(l + ('#size',), st), what='element')
    self.emit('access', st, e, **kw)

def ptrval(self, e, st):
    return self.rv(e, st)

def ptrelem(self, p, i):
    if p[0] == 'ptr': return p[1] + (('[]', add(p[2], i)),)
    if p[0] == 'ite': return ('lite', p[1], self.ptrelem(p[2], i), self.ptrelem(p[3], i))
    if p[0] == 'addr':
        return p[1] if i == ZERO else p[1] + (('[]', i),)
    if p[0] == 'uf' and p[1] == 'padd': return self.ptrelem(p[2], add(p[3], i))
    return (('deref', p), ('[]', i))

def padd(self, p, i):
    if p[0] == 'ptr': return ('ptr', p[1], add(p[2], i))
    if p[0] == 'ite': return ite(p[1], self.padd(p[2], i), self.padd(p[3], i))
    if p[0] == 'phi' : return ('uf', 'padd', p, i)
    if p[0] == 'uf' and p[1] == 'padd': return ('uf', 'padd', p[2], add(p[3], i)) if p[2][0] == 'phi' else ('ptr', p[1], p[2])
    if p[0] == 'str': return ('uf', 'padd', p, i)
    return ('ptr', (('deref', p),), i)

def step(self, v, op):
    d = ONE if op == '++' else num(-1)
    if v[0] == 'ptr' or (v[0] in ('addr',)): return self.padd(v, d)
    if v[0] == 'uf' and v[1] in ('padd',): return self.padd(v, d)
    return add(v, d)

# ---------------------------------------------------------------- node evaluators
EV = {}
def node(*ks):
    def d(f):
        for k in ks: EV[k] = f
        return f
    return d

@node('int')
def _(self, e, st): return ('int', int(e['v']))
@node('float')
def _(self, e, st): return ('flt', float(e['v']))
@node('bool')
def _(self, e, st): return ('bool', e['v'])
@node('str')
def _(self, e, st): return ('str', e['v'])
@node('null')
def _(self, e, st): return NULL
@node('this')
def _(self, e, st): return ('addr', self.frame.this) if self.frame.this is not None else ('uf', 'this')
@node('zero')
def _(self, e, st):
    k = self.tk(e['t'])
    if k in ('rec', 'vec', 'map', 'set', 'buf', 'std', 'pair'):
        t = self.tmp(); self.zero_init(t, e['t'], st); return ('obj', t)
    return self.zero(e['t'])
@node('const')
def _(self, e, st): return ('uf', 'constexpr', ('str', str(e.get('l'))))
@node('ref')
def _(self, e, st):
    if e['dk'] == 'enum': return ('int', int(e['v']))
    if e['dk'] == 'func': return ('fn', e['fn'], e['q'])
    return self.read(self.lv(e, st), st)
@node('mem', 'idx')
def _(self, e, st): 
    l = self.lv(e, st)
    return self.read(l, st)
@node('mref')
def _(self, e, st): return ('fn', e['fn'], e['q'])

@node('un')
def _(self, e, st):
    op = e['op']
    if op in ('++', '--'):
        l = self.lv(e['e'], st); v = self.read(l, st)
        self.write(l, self.step(v, op), st, e)
        return v if e.get('post') else self.read(l, st)
    if op == '&':
        if e['e']['k'] == 'ref' and e['e'].get('dk') == 'func': return ('fn', e['e']['fn'], e['e']['q'])
        return self.addr(self.lv(e['e'], st))
    v = self.rv(e['e'], st)
    if op == '-': return neg(v)
    if op == '+': return v
    if op == '!': return not_(self.tobool(v))
    if op == '~': return ('bnot', v)
    if op == '*': return self.read(self.lv(e, st), st)
    raise Giveup('unary ' + op)

def isfloat(self, ti): return self.p.strip(ti)['k'] == 'float'

def ptrite(a): return a[0] == 'ite' and (a[2][0] == 'ptr' or ptrite(a[2])) and (a[3][0] == 'ptr' or ptrite(a[3]))
def given(c, x, truth):
    return (x[2] if truth else x[3]) if x[0] == 'ite' and x[1] == c else x
def arith(self, op, a, b, fl, ptr=False):
    if op in ('+', '-'):
        for x in (a, b):
            if ptrite(x): return ite(x[1], *[arith(self, op, given(x[1], a, tr), given(x[1], b, tr), fl) for tr in (True, False)])
    if op == '+':
        if a[0] in ('ptr', 'addr') or (a[0] == 'uf' and a[1] == 'padd'): return self.padd(a, b)
        if b[0] in ('ptr', 'addr') : return self.padd(b, a)
        return add(a, b)
    if op == '-':
        if a[0] == 'ptr' and b[0] == 'ptr': return sub(a[2], b[2]) if a[1] == b[1] else ('uf', 'pdiff', a, b)
        if a[0] == 'ptr': return self.padd(a, neg(b))
        return sub(a, b)
    if op == '*': return mul(a, b)
    if op == '/': return fdiv(a, b) if fl else idiv(a, b)
    if op == '%': return mod(a, b)
    if op == '&': 
        if isbool(a) and isbool(b): return and_(a, b)
        return ('band', a, b)
    if op == '|':
        if isbool(a) and isbool(b): return or_(a, b)
        return ('bor', a, b)
    if op == '^':
        if isbool(a) and isbool(b): return not_(eq2(a, b))
        return ('bxor', a, b)
    if op == '<<': return ('shl', a, b)
    if op == '>>': return ('shr', a, b)
    raise Giveup('operator ' + op)

def eq2(a, b):
    if isbool(a) and isbool(b): return or_(and_(a, b), and_(not_(a), not_(b)))
    return eq(a, b)

def compare(self, op, a, b, fl):
    for x in (a, b):
        if ptrite(x): return ite(x[1], *[compare(self, op, given(x[1], a, tr), given(x[1], b, tr), fl) for tr in (True, False)])
    if a[0] == 'mend' and b[0] == 'mpos': a, b = b, a
    if a[0] == 'mpos' and b[0] == 'mend' and a[1] == b[1] and op in ('==', '!='): a, b = a[2], ('uf', 'msize', a[3])
    if a[0] in ('ptr', 'rit', 'mpos') and b[0] == a[0] and a[1] == b[1]: a, b = a[2], b[2]
    if op in ('==', '!='):
        if fl:
            if isnum(a) and isnum(b): r = num(a[1] == b[1])
            elif a == b: r = not_(('isnan', a))
            elif isbool(a) or isbool(b): r = eq2(self.tobool(a), self.tobool(b))
            else: r = ('feq',) + tuple(sorted((a, b), key=skey))
        elif isbool(a) and isbool(b): r = eq2(a, b)
        elif isbool(a) and isnum(b): r = a if b[1] == 1 else not_(a) if b[1] == 0 else FALSE
        elif isbool(b) and isnum(a): r = b if a[1] == 1 else not_(b) if a[1] == 0 else FALSE
        else: r = eq(a, b)
        return r if op == '==' else not_(r)
    if a[0] in ('ptr', 'rit') and b[0] == a[0] and a[1] == b[1]: a, b = a[2], b[2]
    if not fl:
        # unsigned/integer comparisons: x > 0 for counters
        if op == '<': return lt(a, b)
        if op == '>': return lt(b, a)
        if op == '<=': return not_(lt(b, a))
        if op == '>=': return not_(lt(a, b))
    if op == '<': return lt(a, b)
    if op == '>': return lt(b, a)
    if op == '<=': return le(a, b)
    if op == '>=': return le(b, a)

@node('bin')
def _(self, e, st):
    op = e['op']
    if op in ('&&', '||'):
        a = self.cond(e['a'], st)
        if st.store is None: return ('none',)
        if op == '&&' and a == FALSE: return FALSE
        if op == '||' and a == TRUE: return TRUE
        g = a if op == '&&' else not_(a)
        if self.access or side_effects(e['b']):
            s1 = st.fork(g)
            b = self.cond(e['b'], s1)
            if s1.store is not None:
                m = merge(s1, st.fork(not_(g)), self.default); st.store = m.store; st.asm = m.asm
            else: b = FALSE
        else: b = self.cond(e['b'], st)
        return and_(a, b) if op == '&&' else or_(a, b)
    if op == ',':
        self.ev(e['a'], st); return self.ev(e['b'], st)
    a = self.rv(e['a'], st); b = self.rv(e['b'], st)
    fl = isfloat(self, e['a']['t']) or isfloat(self, e['b']['t'])
    if op in ('==', '!=', '<', '>', '<=', '>='): return compare(self, op, a, b, fl)
    if getattr(self, 'rawu', False) and op in ('+', '-', '*') and self.p.strip(e['t'])['s'] in ('unsigned long', 'unsigned long long', 'size_t'): return ('uf', 'u' + op, a, b)   # with wrap-around
    return arith(self, op, a, b, isfloat(self, e['t']))

@node('asg')
def _(self, e, st):
    l = self.assign(e, st)
    return self.read(l, st) if st.store is not None else ('none',)

def assign(self, e, st):
    op = e['op']
    if op == '=':
        v = self.rv(e['b'], st)
        l = self.lv(e['a'], st)
        if st.store is None: return (('dead',),)
        self.write(l, v, st, e)
        return l
    b = self.rv(e['b'], st)
    l = self.lv(e['a'], st)
    if st.store is None: return (('dead',),)
    a = self.read(l, st)
    if self.tk(e['t']) == 'bool' and op in ('|=', '&=') and isbool(b): r = (or_ if op == '|=' else and_)(a, b)
    else: r = arith(self, op[:-1], a, b, isfloat(self, e['crt']) if 'crt' in e else isfloat(self, e['t']))
    if self.tk(e['t']) == 'bool': r = self.tobool(r)
    self.write(l, r, st, e)
    return l

@node('cond')
def _(self, e, st):
    c = self.cond(e['c'], st)
    if st.store is None: return ('none',)
    if c == TRUE: return self.ev(e['a'], st)
    if c == FALSE: return self.ev(e['b'], st)
    s1 = st.fork(c); s2 = st.fork(not_(c))
    a = self.ev(e['a'], s1); b = self.ev(e['b'], s2)
    if s1.store is None and s2.store is None: st.store = None; return ('none',)
    if s1.store is None or s2.store is None:
        s = s2 if s1.store is None else s1
        st.store = s.store; st.asm = s.asm + ((not_(c) if s1.store is None else c),)
        return b if s1.store is None else a
    m = merge(s1, s2, self.default); st.store = m.store; st.asm = m.asm
    if a[0] in ('loc', 'obj') or b[0] in ('loc', 'obj'):
        if a[0] not in ('loc', 'obj') or b[0] not in ('loc', 'obj'): return a
        return ('obj', ('lite', c, a[1], b[1])) if a[1] != b[1] else a
    return ite(c, a, b)

def nonzero(self, v):
    if v[0] == 'ite': return ite(v[1], nonzero(self, v[2]), nonzero(self, v[3]))
    return self.tobool(v) if isbool(v) or isnum(v) else not_(eq(v, ZERO))

@node('cast')
def _(self, e, st):
    ck = e['ck']
    if ck == 'LValueToRValue': 
        v = self.ev(e['e'], st)
        if v[0] == 'loc': return self.read(v[1], st)
        return v
    if ck == 'ToVoid': self.ev(e['e'], st); return ('none',)
    if ck == 'ArrayToPointerDecay':
        s = e['e']
        if s['k'] == 'str': return ('str', s['v'])
        l = self.lv(s, st)
        if st.store is not None:
            v = st.store.get(l)
            if v is not None and v[0] == 'str': return v
        return ('ptr', l, ZERO)
    v = self.rv(e['e'], st)
    if ck == 'NullToPointer': return NULL
    if ck == 'IntegralToBoolean': return nonzero(self, v)
    if ck == 'FloatingToBoolean': return self.tobool(v) if isbool(v) else not_(('feq', v, ZERO)) if not isnum(v) else num(v[1] != 0)
    if ck == 'PointerToBoolean': return not_(eq(v, NULL))
    if ck == 'IntegralToFloating': 
        if isnum(v): return ('flt', float(v[1]))
        return v
    if ck == 'FloatingToIntegral':
        if isnum(v) and abs(v[1]) < 1e18: return ('int', int(v[1]))
        return narrowed(self, e, ('trunc', v)) if not isbool(v) else v
    if ck == 'FloatingCast':
        to = self.p.strip(e['t'])['bits']; fr = self.p.strip(e['e']['t'])['bits']
        if to < fr:
            self.conv.append((self.where(e), fr, to))
            if to == 32:
                if v[0] == 'flt':
                    try: return ('flt', struct.unpack('f', struct.pack('f', v[1]))[0])
                    except OverflowError: return v
                return v if v[0] == 'f32' else ('f32', v)
        return v
    if ck == 'IntegralCast':
        if isnum(v):
            t = self.p.strip(e['t'])
            if t['k'] == 'int' and not t.get('sg') and v[1] < 0: return ('int', v[1] % (1 << t['bits']))
            return v
        t, u = self.p.strip(e['t']), self.p.strip(e['e']['t'])
        return narrowed(self, e, v) if t['k'] == u['k'] == 'int' and t['bits'] < u['bits'] else v
    if ck in ('BitCast', 'IntegralToPointer', 'PointerToIntegral', 'BaseToDerived', 'Dynamic', 'MemberPointerToBoolean', 'NonAtomicToAtomic', 'LValueBitCast'): return v
    return v

def narrowed(self, e, v):
    t = self.p.strip(e['t'])
    return ('narrow', v, t['bits'], bool(t.get('sg'))) if self.narrow and t['k'] == 'int' and t['bits'] < 64 else v

@node('new')
def _(self, e, st):
    i = self.fresh()
    t = self.p.types[e['nt']]
    loc = (('new', i, t['s']),)
    if t['k'] == 'rec' and t['rid'] in self.p.recs: self.dyn[loc] = t['rid']
    self.emit('new', st, e, id=i, type=t['s'], loc=loc)
    if e.get('init') is not None: self.init(loc, e['init'], st, e['nt'])
    return ('addr', loc)

@node('del')
def _(self, e, st):
    v = self.rv(e['e'], st); self.emit('delete', st, e, val=v); return ('none',)

@node('lambda')
def _(self, e, st):
    if not hasattr(self, 'clos'): self.clos = {}
    caps = {}
    this = None
    for c in e['caps']:
        if c.get('this'): this = self.frame.this; continue
        if 'd' not in c: continue
        if c['ref']: caps[(c['d'], c['n'])] = self.lv(c['init'], st)
        else:
            t = self.tmp(); self.init(t, c['init'], st, c['init']['t']); caps[(c['d'], c['n'])] = t
    n = self.fresh(); self.clos[n] = (e['call'], caps, this)
    return ('clo', n)

@node('throw')
def _(self, e, st):
    i = self.fresh()
    msg = ('none',); ty = 'rethrow'
    if e.get('e') is not None:
        ty = self.p.strip(e['tt'])['s'] if self.p.strip(e['tt'])['k'] != 'rec' else self.p.strip(e['tt'])['q']
        x = e['e']
        while x['k'] == 'ctor' and len(x['args']) >= 1 and x['ck'] in ('copy', 'move') and not x['args'][0].get('lv'): x = x['args'][0]
        if x['k'] == 'ctor' and x['args']: msg = self.rv(x['args'][0], st)
        elif x['k'] == 'ctor': msg = ('str', '')
        else: msg = self.ev(x, st)
    ev_ = self.emit('throw', st, e, id=i, type=ty, msg=msg)
    self.throws.append((State(dict(st.store), st.pc, st.asm), ty, msg, e.get('l'), i, ev_))
    st.store = None
    return ('none',)

@node('ctor')
def _(self, e, st):
    k = self.tk(e['t'])
    if k in ('str', 'sptr', 'iter', 'closure'):
        t = self.tmp(); self.ctor_model(t, e, st, k)
        return st.store.get(t, ('undef', t)) if st.store is not None else ('none',)
    t = self.tmp(); self.init(t, e, st, e['t'])
    return ('obj', t)

@node('init')
def _(self, e, st):
    k = self.tk(e['t'])
    if k in ('rec', 'vec', 'map', 'set', 'buf', 'std', 'pair', 'other'):
        t = self.tmp(); self.init_list(t, e, st); return ('obj', t)
    if k in ('str',) : return self.ev(e['a'][0], st) if e['a'] else ('str', '')
    if k == 'sptr': return self.rv(e['a'][0], st) if e['a'] else NULL
    return self.rv(e['a'][0], st) if e['a'] else self.zero(e['t'])

@node('stdinit')
def _(self, e, st):
    return ('loc', self.lv(e['e'], st))
@node('arraycopy')
def _(self, e, st): return ('loc', self.lv(e['e'], st))
@node('call', 'icall')
def _(self, e, st):
    v = self.call(e, st)
    if v[0] == 'loc' and not e.get('lv') : return ('obj', v[1])
    return v
@node('?')
def _(self, e, st): raise Giveup('expression ' + str(e.get('cls')))

# ---------------------------------------------------------------- constructors of library types
def ctor_model(self, loc, e, st, k):
    a = e.get('args', []); ck = e.get('ck', 'other')
    a = [x for x in a if not (x and x.get('defarg') and self.p.strip(x['t']).get('q') == 'std::allocator')]
    a = [x for x in a if self.p.strip(x['t']).get('q') != 'std::allocator']
    if k == 'str':
        if not a: v = ('str', '')
        elif len(a) == 1: v = self.rv(a[0], st)
        else: v = ('uf', 'string') + tuple(self.rv(x, st) for x in a)
        if v[0] == 'uf' and v[1] == 'string' and len(v) == 4 and v[2] == ONE and isnum(v[3]): v = ('str', chr(v[3][1]))
        self.write(loc, v, st, e); return
    if k == 'sptr':
        if not a: self.write(loc, NULL, st, e); return
        if a[0].get('lv') and self.tk(a[0]['t']) == 'sptr':
            s = self.lv(a[0], st); v = self.read(s, st)
            if self.p.strip(a[0]['t'])['q'] == 'std::unique_ptr' or (a[0].get('lv') == 2): self.write(s, NULL, st, e)
        else: v = self.rv(a[0], st)
        self.write(loc, v, st, e); return
    if k in ('iter', 'closure'):
        self.write(loc, self.rv(a[0], st) if a else ('undef', loc), st, e); return
    if k == 'vec':
        if not a: self.setsize(loc, ZERO, st, e); return
        if ck in ('copy', 'move'):
            s = self.lv(a[0], st); self.copy_obj(loc, s, e['t'], st, e)
            self.emit('vmake', st, e, vec=loc, src=s, move=ck == 'move')
            if ck == 'move' and a[0].get('lv') == 2: self.setsize(s, ZERO, st, e)
            return
        if self.tk(a[0]['t']) == 'vec':      # initializer_list
            s = self.lv(a[0], st); self.copy_obj(loc, s, e['t'], st, e); return
        n = self.rv(a[0], st)
        et = self.elemtype(self.p.strip(e['t']))
        if self.tk(a[0]['t']) in ('iter', 'ptr') and len(a) >= 2:
            last = self.rv(a[1], st)
            if n[0] == 'ptr' and last[0] == 'ptr' and n[1] == last[1]:
                self.setsize(loc, ZERO, st, e)
                cnt = sub(last[2], n[2]); self.setsize(loc, cnt, st, e)
                self.copyrange(n, cnt, ('ptr', loc, ZERO), st, e); return
        self.setsize(loc, n, st, e)
        v = self.rv(a[1], st) if len(a) > 1 else (self.zero(et) if et is not None and self.tk(et) in ('int', 'float', 'bool', 'ptr', 'sptr', 'str') else ('flt', 0.0))
        self.setarr(loc + (('[]',),), ('constarr', v), st)
        return
    if k in ('map', 'set'):
        if ck in ('copy', 'move') and a:
            s = self.lv(a[0], st); self.copy_obj(loc, s, e['t'], st, e)
            if ck == 'move': self.setarr(s + ('#has', ('[]',)), ('constarr', FALSE), st)
            return
        self.setarr(loc + ('#has', ('[]',)), ('constarr', FALSE), st); return
    if k == 'buf':
        if ck in ('copy', 'move') and a:
            s = self.lv(a[0], st); self.copy_obj(loc, s, e['t'], st, e)
            if ck == 'move': self.write(self.field(s, '#nfr'), ZERO, st, e)
            return
        n = [self.rv(x, st) for x in a]
        self.write(loc + ('#nch',), n[0] if n else ZERO, st, e)
        self.write(loc + ('#nfr',), n[1] if len(n) > 1 else ZERO, st, e)
        self.setarr(loc + ('#s', ('[]',), ('[]',)), ('constarr', ('flt', 0.0)), st)
        return
    q = e.get('q', '')
    if k == 'stream':
        self.write(loc + ('#txt',), ('str', ''), st, e, quiet=True)
        args = tuple(self.rv(x, st) if self.tk(x['t']) != 'std' else ('str', '') for x in a)
        if args: self.emit('open', st, e, q=q, loc=loc, args=args)
        return
    if ck in ('copy', 'move') and a and a[0].get('lv'):
        self.copy_obj(loc, self.lv(a[0], st), e['t'], st, e); return
    if k == 'pair':
        t = self.p.strip(e['t'])
        for n, x in zip(('first', 'second'), a): self.init(loc + (n,), x, st, None)
        return
    if k == 'rec':    # aggregate / trivial constructor without a body
        if ck == 'default' : 
            if e.get('zero'): self.zero_init(loc, e['t'], st)
            return
    vals = []
    for x in a:
        v = self.ev(x, st)
        vals.append(v if v[0] not in ('loc', 'obj') else ('addr', v[1]) if self.tk(x['t']) not in ('str', 'sptr') else self.read(v[1], st))
    if st.store is None: return
    self.write(loc + ('#state',), ('uf', 'ctor:' + self.p.strip(e['t']).get('q', '?')) + tuple(vals), st, e, quiet=True)
    self.emit('ctor', st, e, q=self.p.strip(e['t']).get('q', '?'), loc=loc, args=tuple(vals))

def setsize(self, loc, n, st, e):
    self.write(self.field(loc, '#size'), n, st, e)

def setarr(self, loc, v, st):
    """whole-array assignment of the column `loc` (which ends in one open '[]' per dimension)"""
    if loc[0] == 'lite':
        raise Giveup('whole-array write through a conditional location')
    key, ix = self.canon(loc)
    if ix:
        old = st.store.get(key)
        st.store[key] = ('storep', old if old is not None else self.default(key), ix, v)
    else: st.store[key] = v

def fork_on(self, loc, st, f):
    """runs f on a (possibly conditional) location"""
    if loc[0] != 'lite': return f(loc, st)
    s1 = st.fork(loc[1]); s2 = st.fork(not_(loc[1]))
    a = fork_on(self, loc[2], s1, f); b = fork_on(self, loc[3], s2, f)
    if s1.store is None or s2.store is None:
        s = s2 if s1.store is None else s1
        st.store = s.store; return b if s1.store is None else a
    m = merge(s1, s2, self.default); st.store = m.store; st.asm = m.asm
    return self.mergeval(loc[1], a, b, s1, s2)

for f in (ev, rv, lv, ptrval, ptrelem, accessed, padd, step, assign, ctor_model, setsize, setarr): setattr(Engine, f.__name__, f)

from . import models  # noqa
