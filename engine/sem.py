"""Deciding equality and implication of value terms: normal forms under assumptions, truth
tables over the atoms of a guard, linear arithmetic on indices, and identity testing of
arithmetic expressions by random interpretation (Gulwani & Necula, POPL 2003)."""
import math, random, struct, itertools
from .term import *
from . import term as T

# ------------------------------------------------------------------ facts
NONNEG_NAMES = ('#nch', '#nfr', '#size')
def is_unsigned_leaf(t):
    if t[0] in ('kap', 'kx', 'kn'): return True
    if t[0] == 'evout' and t[2] in ('added', 'size'): return True
    if t[0] == 'in' and isinstance(t[1], tuple) and t[1] and t[1][-1] in NONNEG_NAMES: return True
    if t[0] == 'in' and isinstance(t[1], tuple) and t[1] and isinstance(t[1][-1], tuple) and t[1][-1][0] == 'P' and str(t[1][-1][1]).endswith('#size'): return True
    if t[0] == 'sel' and t[1][0] == 'in' and t[1][1][-1] in NONNEG_NAMES: return True
    if t[0] == 'uf' and t[1] in ('msize', 'strlen', 'rsize', 'capacity'): return True
    return False

def unsigned_sum(t):
    if isnum(t): return t[0] == 'int'
    if t[0] in ('add', 'mul', 'prod', 'min', 'max'): return all(unsigned_sum(x) for x in t[1:] if isinstance(x, tuple))
    return is_unsigned_leaf(t)

class Facts:
    """what is known at a point: boolean terms that hold, and non-negative leaves"""
    def __init__(self, facts=(), nonneg=()):
        self.true = set(); self.nn = set(nonneg); self.lin = []
        todo = list(facts)
        while todo:
            f = todo.pop()
            if f[0] == 'and': todo += f[1:]; continue
            self.true.add(f)
        for f in self.true: self._lin(f)
    def _lin(self, f):
        """facts a < b as linear terms known to be >= 0 (integers)"""
        if f[0] == 'lt': self.lin.append(sub(sub(f[2], f[1]), ONE))
        elif f[0] == 'le': self.lin.append(sub(f[2], f[1]))
        elif f[0] == 'not' and f[1][0] == 'lt': self.lin.append(sub(f[1][1], f[1][2]))
        elif f[0] == 'not' and f[1][0] == 'le': self.lin.append(sub(sub(f[1][1], f[1][2]), ONE))
        elif f[0] == 'eq' and not isconst(f[1]) or f[0] == 'eq' and isnum(f[1]):
            if f[1][0] in ('null', 'str', 'bool') or f[2][0] in ('null', 'str', 'bool'): return
            d = sub(f[1], f[2]); self.lin.append(d); self.lin.append(neg(d))
        elif f[0] == 'not' and f[1][0] == 'eq':
            # x != 0 for an unsigned x
            a, b = f[1][1], f[1][2]
            if b == ZERO: a, b = b, a
            if a == ZERO and self.isnn(b): self.lin.append(sub(b, ONE))
    def isnn(self, t):
        if t in self.nn: return True
        if isnum(t): return t[1] >= 0
        if is_unsigned_leaf(t): return True
        if t[0] == 'add': return all(self.isnn(x) for x in t[1:])
        if t[0] == 'mul' and isnum(t[1]): return t[1][1] >= 0 and self.isnn(t[2])
        if t[0] == 'prod': return all(self.isnn(x) for x in t[1:])
        if t[0] in ('min', 'max'): return self.isnn(t[1]) and self.isnn(t[2])
        if t[0] == 'mod' or t[0] == 'idiv': return self.isnn(t[1]) and self.isnn(t[2])
        if t[0] == 'ite': return self.isnn(t[2]) and self.isnn(t[3])
        if t[0] == 'ceildiv': return True
        return False
    def with_(self, *fs):
        r = Facts((), self.nn); r.true = set(self.true); r.lin = list(self.lin)
        todo = list(fs)
        while todo:
            f = todo.pop()
            if f[0] == 'and': todo += f[1:]; continue
            if f not in r.true: r.true.add(f); r._lin(f)
        return r

    def ge0(self, e, depth=4):
        """is the (integer) term e provably >= 0 ?"""
        # case split on min/max/ite
        for x in subterms_top(e):
            if x[0] == 'min':
                a, b = x[1], x[2]
                return self.with_(not_(lt(b, a))).ge0(subst(e, {x: a}), depth) and self.with_(lt(b, a)).ge0(subst(e, {x: b}), depth)
            if x[0] == 'max':
                a, b = x[1], x[2]
                return self.with_(not_(lt(a, b))).ge0(subst(e, {x: a}), depth) and self.with_(lt(a, b)).ge0(subst(e, {x: b}), depth)
            if x[0] == 'ite':
                c = x[1]
                return (not_(c) in self.true or self.with_(c).ge0(subst(e, {x: x[2]}), depth)) and (c in self.true or self.with_(not_(c)).ge0(subst(e, {x: x[3]}), depth))
        extra = []
        for x in subterms_top(e) | set().union(*[subterms_top(l) for l in self.lin]) if self.lin else subterms_top(e):
            if x[0] == 'mod' and self.isnn(x[1]) and self.isnn(x[2]):      # 0 <= a % b < b
                extra.append(sub(sub(x[2], x), ONE)); extra.append(x)
                if x[1] != x: extra.append(sub(x[1], x))
            if x[0] == 'min': extra += [sub(x[1], x), sub(x[2], x)]
            if x[0] == 'max': extra += [sub(x, x[1]), sub(x, x[2])]
        return self._ge0(e, depth, self.lin + extra, set())
    def _ge0(self, e, depth, lin, seen):
        if self.isnn(e): return True
        if isnum(e): return e[1] >= 0
        if depth == 0 or e in seen: return False
        seen = seen | {e}
        cs = [n for k, n in lin_items(e) if k is not None]
        if cs and all(n == int(n) for n in cs):      # g*x + c >= 0 just if x + floor(c/g) >= 0
            g = math.gcd(*[int(n) for n in cs])
            if g > 1:
                r = ZERO
                for k, n in lin_items(e): r = add(r, num(int(math.floor(n / g))) if k is None else mul(num(int(n) // g), k))
                return self._ge0(r, depth, lin, seen)
        negs = [(k, n) for k, n in lin_items(e) if k is not None and n < 0]
        # products: c*x - x*y .. factor out a common non-negative factor
        g = self._factor(e)
        if g is not None and g != e and self._ge0(g, depth - 1, lin, seen): return True
        for f in lin:
            for k, n in lin_items(f):
                if k is None or n <= 0: continue
            # subtracting a fact must remove a negative term
            fi = dict((k, n) for k, n in lin_items(f) if k is not None)
            for k, n in negs:
                if k in fi and fi[k] < 0:
                    m = n / fi[k]
                    if m == int(m) and m > 0 and self._ge0(sub(e, mul(num(int(m)), f)), depth - 1, lin, seen): return True
                    break
            # fact times a non-negative factor of a negative product
            for k, n in negs:
                if k[0] == 'prod':
                    for x in k[1:]:
                        if not self.isnn(x): continue
                        fx = mul(x, f)
                        fxi = dict((kk, nn) for kk, nn in lin_items(fx) if kk is not None)
                        if k in fxi and fxi[k] < 0:
                            m = n / fxi[k]
                            if m == int(m) and m > 0 and self._ge0(sub(e, mul(num(int(m)), fx)), depth - 1, lin, seen): return True
        if not negs:
            c = [n for k, n in lin_items(e) if k is None]
            if c and c[0] < 0:
                pos = dict((k, n) for k, n in lin_items(e) if k is not None)
                for f in lin:
                    fi = dict((k, n) for k, n in lin_items(f) if k is not None)
                    if fi and all(k in pos and pos[k] >= n for k, n in fi.items()) and self._ge0(sub(e, f), depth - 1, lin, seen): return True
        return False
    def _factor(self, e):
        items = [(k, n) for k, n in lin_items(e)]
        if any(k is None for k, n in items) or len(items) < 2: return None
        sets = [set(k[1:]) if k[0] == 'prod' else {k} for k, n in items]
        common = set.intersection(*sets)
        for x in common:
            if not self.isnn(x): continue
            r = ZERO
            for k, n in items:
                if k == x: q = ONE
                else:
                    fs = list(k[1:]); fs.remove(x); q = ONE
                    for y in fs: q = mul(q, y)
                r = add(r, mul(num(n), q))
            return r
        return None

    def holds(self, c, depth=4):
        """True / False / None"""
        if c[0] == 'bool': return c[1]
        if c in self.true: return True
        if not_(c) in self.true: return False
        if c[0] == 'not':
            r = self.holds(c[1], depth); return None if r is None else not r
        if c[0] == 'and':
            rs = [self.holds(x, depth) for x in c[1:]]
            if any(r is False for r in rs): return False
            return True if all(rs) else None
        if c[0] == 'or':
            rs = [self.holds(x, depth) for x in c[1:]]
            if any(r is True for r in rs): return True
            return False if all(r is False for r in rs) else None
        if c[0] == 'lt':
            if self.intlike(c):
                if self.ge0(sub(sub(c[2], c[1]), ONE), depth): return True
                if self.ge0(sub(c[1], c[2]), depth): return False
        if c[0] == 'le' and self.intlike(c):
            if self.ge0(sub(c[2], c[1]), depth): return True
            if self.ge0(sub(sub(c[1], c[2]), ONE), depth): return False
        if c[0] == 'eq' and self.intlike(c):
            d = sub(c[1], c[2])
            if self.ge0(d, depth) and self.ge0(neg(d), depth): return True
            if self.ge0(sub(d, ONE), depth) or self.ge0(sub(neg(d), ONE), depth): return False
        if c[0] == 'mempty' and any(x[0] == 'has' and x[1] == c[1] for x in self.true): return False
        return None
    def intlike(self, c):
        def ok(t):
            for x in (t[1:] if t[0] in ('add',) else (t,)):
                if x[0] == 'mul' and isnum(x[1]): x = x[2]
                for y in (x[1:] if x[0] == 'prod' else (x,)):
                    if y[0] in ('flt', 'div', 'null', 'str', 'addr', 'ptr', 'bool', 'f32', 'new', 'in*'): return False
            return True
        return ok(c[1]) and ok(c[2])

    def simp(self, t, memo=None):
        """rewrites t under the facts"""
        if memo is None: memo = {}
        if not isinstance(t, tuple) or not t: return t
        r = memo.get(t)
        if r is not None: return r
        r = t
        if isinstance(t[0], str):
            if t[0] in ('lt', 'le', 'eq', 'not', 'and', 'or', 'has', 'mempty', 'empty', 'exists', 'in', 'ev', 'uf', 'isnan', 'feq', 'isa', 'throws', 'evout'):
                h = self.holds(t)
                if h is not None: memo[t] = num(h); return num(h)
            if t[0] == 'ite':
                c = self.simp(t[1], memo)
                if c == TRUE: r = self.simp(t[2], memo)
                elif c == FALSE: r = self.simp(t[3], memo)
                else:
                    a = self.with_(c).simp(t[2]); b = self.with_(not_(c)).simp(t[3])
                    r = ite(c, a, b)
                memo[t] = r; return r
            if t[0] in ('min', 'max'):
                a, b = self.simp(t[1], memo), self.simp(t[2], memo)
                if self.ge0(sub(b, a)) and self.intlike(('lt', a, b)): r = a if t[0] == 'min' else b
                elif self.ge0(sub(a, b)) and self.intlike(('lt', a, b)): r = b if t[0] == 'min' else a
                else: r = T.rebuild(t[0], (a, b))
                memo[t] = r; return r
            if t[0] == 'in': return t
            a = tuple(self.simp(x, memo) if isinstance(x, tuple) else x for x in t[1:])
            if a != t[1:]:
                r = T.rebuild(t[0], a)
                if r != t: r = self.simp(r, memo)
        else:
            r = tuple(self.simp(x, memo) if isinstance(x, tuple) else x for x in t)
        memo[t] = r
        return r

def subterms_top(e):
    """maximal non-arithmetic subterms of a linear term"""
    out = set()
    for k, n in lin_items(e):
        if k is None: continue
        for x in (k[1:] if k[0] == 'prod' else (k,)): out.add(x)
    return out

def lin_items(e):
    d = {}; c = 0
    for k, n in T._lin(e):
        if k is None: c += n
        else: d[k] = d.get(k, 0) + n
    out = [(k, n) for k, n in d.items() if n != 0]
    if c: out.append((None, c))
    return out

# ------------------------------------------------------------------ guards: truth tables
CONN = ('and', 'or', 'not')
def atoms(t, out=None):
    if out is None: out = []
    if t[0] in ('and', 'or'):
        for x in t[1:]: atoms(x, out)
    elif t[0] == 'not': atoms(t[1], out)
    elif t[0] == 'ite' and E_isbool(t): 
        for x in t[1:]: atoms(x, out)
    elif t[0] != 'bool':
        if t not in out: out.append(t)
    return out
def E_isbool(t):
    from .eval import isbool
    return isbool(t)
def evalb(t, m):
    if t[0] == 'bool': return t[1]
    if t[0] == 'and': return all(evalb(x, m) for x in t[1:])
    if t[0] == 'or': return any(evalb(x, m) for x in t[1:])
    if t[0] == 'not': return not evalb(t[1], m)
    if t in m: return m[t]
    if t[0] == 'ite': return evalb(t[2], m) if evalb(t[1], m) else evalb(t[3], m)
    return m[t]

def consistent(m):
    """theory constraints between atoms (exception classes, exclusive equalities, x<y)"""
    eqs = {}
    for a, v in m.items():
        if a[0] == 'isa' and v:
            if not m.get(('throws', a[1]), True): return False
            for b, w in m.items():
                if b[0] == 'isa' and b[1] == a[1] and not w and sub_exc(a[2], b[2]): return False
                if b[0] == 'isa' and b[1] == a[1] and w and b is not a and not sub_exc(a[2], b[2]) and not sub_exc(b[2], a[2]) : return False
        if a[0] == 'eq' and v:
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if isconst(y):
                    if x in eqs and eqs[x] != y: return False
                    eqs[x] = y
        if a[0] == 'has' and v and m.get(('mempty', a[1])): return False
        if a[0] == 'lt' and v and m.get(('lt', a[2], a[1])): return False
    rng = None
    for a, v in m.items():
        if a[0] in ('lt', 'eq') and len(a) == 3:
            x, y = a[1], a[2]
            if y[0] == 'int' and is_unsigned_leaf(x): c = y[1]; up = True
            elif x[0] == 'int' and is_unsigned_leaf(y): c = x[1]; x = y; up = False
            else: continue
            if rng is None: rng = {}
            r = rng.setdefault(x, [0, None, set()])
            if a[0] == 'eq':
                if v: r[0] = max(r[0], c); r[1] = c if r[1] is None else min(r[1], c)
                else: r[2].add(c)
            elif up:
                if v: r[1] = c - 1 if r[1] is None else min(r[1], c - 1)
                else: r[0] = max(r[0], c)
            else:
                if v: r[0] = max(r[0], c + 1)
                else: r[1] = c if r[1] is None else min(r[1], c)
    if rng:
        for lo, hi, ne in rng.values():
            while lo in ne: lo += 1
            if hi is not None and lo > hi: return False
    return True
HIER = {}
def sub_exc(a, b):
    return a == b or b in HIER.get(a, ())

def models(fs, facts=TRUE, extra=(), limit=16):
    """assignments of the atoms of fs consistent with `facts`"""
    at = []
    for f in fs: atoms(f, at)
    atoms(facts, at)
    for x in extra:
        if x not in at: at.append(x)
    if len(at) > limit: raise TooMany(len(at))
    for vs in itertools.product((False, True), repeat=len(at)):
        m = dict(zip(at, vs))
        if consistent(m) and evalb(facts, m): yield m
class TooMany(Exception): pass

def implies(a, b, facts=TRUE):
    return all(not evalb(a, m) or evalb(b, m) for m in models([a, b], facts))
def equiv(a, b, facts=TRUE):
    return all(evalb(a, m) == evalb(b, m) for m in models([a, b], facts))
def diffmodel(a, b, facts=TRUE):
    for m in models([a, b], facts):
        if evalb(a, m) != evalb(b, m): return m
    return None
def showmodel(m): return ', '.join(('' if v else '!') + show(a) for a, v in m.items())

# ------------------------------------------------------------------ random interpretation
class Unknown(Exception): pass
OPAQUE = ('phi', 'lo', 'kx', 'kn', 'exists', 'red', 'undef', 'append', 'resized', 'selp', 'storep', 'lite', 'forall')

class Rand:
    """one random interpretation of the leaves; special: list of (predicate, value maker)"""
    def __init__(self, seed, special=None, pool=None, nan=None):
        self.r = random.Random(repr(seed)); self.seed = seed; self.vals = {}; self.special = special or []; self.opaque = False
        self.pool = pool
    def leaf(self, t, want):
        key = (t, 'b' if want == 'b' else 'n')
        if key in self.vals: return self.vals[key]
        r = random.Random(repr((self.seed, key)))
        v = None
        for pred, mk in self.special:
            if pred(t): v = mk(r, t); break
        if v is None:
            if want == 'b': v = r.random() < 0.5
            elif self.pool and r.random() < 0.2:
                v = r.choice(self.pool) + r.choice([0, 0, 1, -1, 0.5, -0.5, 1000, -1000])
                if is_unsigned_leaf(t): v = abs(int(v))
            elif is_unsigned_leaf(t): v = r.choice([1, 2, 3, 4, 5])
            else:
                x = r.random()
                v = r.uniform(-2, 2) if x < 0.5 else r.uniform(-200, 200) if x < 0.7 else r.choice([0.0, 1.0, -1.0, 2.0, 0.5]) if x < 0.85 else r.uniform(-1e-7, 1e-7) if x < 0.93 else r.uniform(100, 50000)
        self.vals[key] = v
        return v
    def ev(self, t, want='n', memo=None):
        o = t[0]
        if o in ('int', 'flt', 'bool'): return t[1]
        if o == 'str': return t[1]
        if o == 'null': return None
        f = getattr(self, 'e_' + o, None)
        if f is None:
            if o in OPAQUE: self.opaque = True
            return self.leaf(self.canonleaf(t), want)
        return f(t, want)
    def canonleaf(self, t): return t
    def b(self, t):
        v = self.ev(t, 'b')
        if isinstance(v, bool): return v
        if v is None: return False
        if isinstance(v, str): return True
        return v != 0
    def n(self, t):
        v = self.ev(t, 'n')
        if v is None: return 0
        if isinstance(v, str): raise Unknown(v)
        return v
    def e_add(self, t, w):
        s = 0
        for x in t[1:]: s = s + self.n(x)
        return s
    def e_mul(self, t, w): return mulf(self.n(t[1]), self.n(t[2]))
    def e_prod(self, t, w):
        s = 1
        for x in t[1:]: s = mulf(s, self.n(x))
        return s
    def e_div(self, t, w): return divf(self.n(t[1]), self.n(t[2]))
    def e_idiv(self, t, w):
        a, b = self.n(t[1]), self.n(t[2])
        if b == 0 or b != b or a != a: raise Unknown('division by zero')
        return int(a / b)
    def e_mod(self, t, w):
        a, b = self.n(t[1]), self.n(t[2])
        if b == 0: raise Unknown('modulo zero')
        return math.fmod(a, b) if isinstance(a, float) or isinstance(b, float) else int(math.fmod(a, b))
    def e_ceildiv(self, t, w):
        a, b = self.n(t[1]), self.n(t[2])
        if b == 0: raise Unknown('/0')
        return max(0, math.ceil(a / b))
    def u(self, t):
        """a value in a comparison: a difference of unsigned values below zero wraps around, which terms do not model"""
        v = self.n(t)
        if t[0] in ('add', 'mul') and isinstance(v, (int, float)) and v < 0 and unsigned_sum(t): raise Unknown('wraps around')
        return v
    def e_lt(self, t, w): return self.u(t[1]) < self.u(t[2])
    def e_le(self, t, w): return self.u(t[1]) <= self.u(t[2])
    def e_eq(self, t, w):
        a, b = t[1], t[2]
        x, y = self.ev(a), self.ev(b)
        if x is None or y is None:
            other = b if x is None else a
            if x is None and y is None: return True
            return self.leaf(('isnull', other), 'b')
        return x == y
    def e_feq(self, t, w): return self.n(t[1]) == self.n(t[2])
    def e_isnan(self, t, w): 
        v = self.n(t[1]); return v != v
    def e_not(self, t, w): return not self.b(t[1])
    def e_and(self, t, w): return all([self.b(x) for x in t[1:]])
    def e_or(self, t, w): return any([self.b(x) for x in t[1:]])
    def e_ite(self, t, w): return self.ev(t[2], w) if self.b(t[1]) else self.ev(t[3], w)
    def e_min(self, t, w):
        a, b = self.n(t[1]), self.n(t[2]); return b if b < a else a
    def e_max(self, t, w):
        a, b = self.n(t[1]), self.n(t[2]); return b if a < b else a
    def e_abs(self, t, w): return abs(self.n(t[1]))
    def e_trunc(self, t, w):
        v = self.n(t[1])
        if v != v or abs(v) > 1e18: raise Unknown('conversion')
        return int(v)
    def e_f32(self, t, w):
        v = self.n(t[1])
        try: return struct.unpack('f', struct.pack('f', v))[0]
        except OverflowError: return math.copysign(math.inf, v)
    def e_fmt(self, t, w): raise Unknown('text')
    def e_sel(self, t, w):
        idx = tuple(self.ev(x) for x in t[2][1:])
        arr = t[1]
        while arr[0] == 'store':
            j = tuple(self.ev(x) for x in arr[2][1:])
            if j == idx: return self.ev(arr[3], w)
            arr = arr[1]
        if arr[0] == 'ite': return self.ev(('sel', arr[2] if self.b(arr[1]) else arr[3], t[2]), w)
        if arr[0] == 'constarr': return self.ev(arr[1], w)
        if arr[0] in OPAQUE or arr[0] == 'upd': self.opaque = True
        return self.leaf(('sel', arr, ('ix',) + tuple(num(x) if isinstance(x, (int, float)) else ('str', str(x)) for x in idx)), w)
    def e_uf(self, t, w):
        n = t[1]
        if n in MATH:
            a = [self.n(x) for x in t[2:]]
            try: return MATH[n](*a)
            except (ValueError, OverflowError, ZeroDivisionError):
                return math.nan
        args = []
        for x in t[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                try: args.append(self.ev(x))
                except Unknown: args.append(x)
            else: args.append(x)
        return self.leaf(('uf', n) + tuple(args), w)
    def e_isa(self, t, w): return self.leaf(t, 'b')
    def e_has(self, t, w): return self.leaf(t, 'b')
    def e_mempty(self, t, w):
        if any(k[0][0] == 'has' and k[0][1] == t[1] and v for k, v in self.vals.items()): return False
        return self.leaf(t, 'b')

def mulf(a, b):
    try: return a * b
    except OverflowError: return math.inf
def divf(a, b):
    if b == 0:
        if a == 0 or a != a: return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b
def _log(f):
    def g(x):
        if x == 0: return -math.inf
        if x < 0 or x != x: return math.nan
        return f(x)
    return g
def _round(x):
    if x != x or math.isinf(x): return x
    return math.copysign(math.floor(abs(x) + 0.5), x)
MATH = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'log': _log(math.log), 'log10': _log(math.log10), 'log2': _log(math.log2), 'pow': lambda a, b: math.pow(a, b), 'fmod': math.fmod, 'floor': lambda x: float(math.floor(x)), 'ceil': lambda x: float(math.ceil(x)), 'trunc': lambda x: float(math.trunc(x)), 'round': _round, 'lround': lambda x: int(_round(x)), 'llround': lambda x: int(_round(x)), 'sqrt': math.sqrt, 'isfinite': lambda x: math.isfinite(x), 'isinf': lambda x: math.isinf(x), 'signbit': lambda x: math.copysign(1, x) < 0, 'expm1': math.expm1, 'log1p': math.log1p, 'copysign': math.copysign, 'exp2': lambda x: 2.0 ** x, 'cosh': math.cosh, 'sinh': math.sinh, 'tanh': math.tanh, 'atan': math.atan, 'asin': math.asin, 'acos': math.acos, 'rint': lambda x: float(round(x)), 'nearbyint': lambda x: float(round(x)), 'remainder': math.remainder}

def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool): return bool(a) == bool(b)
    if a is None or b is None: return a is b
    if isinstance(a, str) or isinstance(b, str): return a == b
    if a != a or b != b: return a != a and b != b
    if a == b: return True
    if math.isinf(a) or math.isinf(b): return False
    return abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-13

def compare(a, b, facts=None, n=400, seed=1, special=None, want='n', guard=TRUE):
    """'eq' | ('ne', values) | ('?', why): are two terms equal wherever the facts hold?"""
    if facts is not None: a2, b2 = facts.simp(a), facts.simp(b)
    else: a2, b2 = a, b
    if a2 == b2: return 'eq'
    fs = and_(guard, *(facts.true if facts is not None else ()))
    pool = sorted({x[1] for t in (a2, b2) for x in list(subterms(t)) + [t] if x[0] in ('int', 'flt') and isinstance(x[1], (int, float)) and x[1] == x[1] and abs(x[1]) < 1e9 and x[1] not in (0, 1, -1)})
    hits = 0; opaque = False
    for i in range(n * 10):
        R = Rand((seed, i), special, pool)
        try:
            if not R.b(fs): continue
            if facts is not None and any(R.n(l) < 0 for l in facts.nn): continue
            R.opaque = False
            x, y = R.ev(a2, want), R.ev(b2, want)
        except Unknown: continue
        except (TypeError, OverflowError): continue
        if isinstance(x, str) != isinstance(y, str): return ('?', 'text')
        hits += 1
        if not same(x, y):
            if R.opaque: return ('?', 'depends on values without a closed form')
            return ('ne', x, y, R)
        if hits >= n: break
    if hits < 8: return ('?', 'no sample satisfies the assumptions')
    return 'eq'

# ------------------------------------------------------------------ comparing guards
def norm(t, memo=None):
    """canonical comparisons of non-negative integers with 0 and 1"""
    if memo is None: memo = {}
    if not isinstance(t, tuple) or not t: return t
    r = memo.get(t)
    if r is not None: return r
    if isinstance(t[0], str):
        a = tuple(norm(x, memo) if isinstance(x, tuple) else x for x in t[1:]) if t[0] not in ('in', 'ev', 'evout', 'lo', 'phi', 'isa', 'throws') else t[1:]
        r = T.rebuild(t[0], a) if a != t[1:] else t
        F = Facts()
        if r[0] == 'eq' and r[1] == ZERO and F.isnn(r[2]): r = not_(lt(ZERO, r[2]))
        elif r[0] == 'eq' and r[2] == ZERO and F.isnn(r[1]): r = not_(lt(ZERO, r[1]))
        elif r[0] == 'le' and r[1] == ONE and F.isnn(r[2]): r = lt(ZERO, r[2])
        elif r[0] == 'le' and r[2] == ZERO and F.isnn(r[1]): r = not_(lt(ZERO, r[1]))
        elif r[0] == 'lt' and r[2] == ONE and F.isnn(r[1]): r = not_(lt(ZERO, r[1]))
        elif r[0] == 'le' and r[1] == ZERO and F.isnn(r[2]): r = TRUE
        elif r[0] == 'lt' and not isnum(r[1]) and not isnum(r[2]) and Facts().intlike(r) and len(lin_items(sub(r[2], r[1]))) < len(lin_items(r[1])) + len(lin_items(r[2])): r = lt(ZERO, sub(r[2], r[1]))
        elif r[0] == 'le': r = not_(lt(r[2], r[1])) if Facts().intlike(r) else r
    else: r = tuple(norm(x, memo) if isinstance(x, tuple) else x for x in t)
    memo[t] = r
    return r

def leaves(t):
    return {x for x in subterms(t) if x[0] in ('in', 'ev', 'evout', 'phi', 'lo', 'kap')}

def guardcmp(got, want, facts=TRUE, seed=1, special=None, free=None):
    """do two conditions agree wherever `facts` holds?"""
    a, b, f = norm(got), norm(want), norm(facts)
    if a == b: return 'eq'
    try: m = diffmodel(a, b, f)
    except TooMany: m = 0
    if m is None: return 'eq'
    if m:
        wa = set(atoms(b)) | set(atoms(f))
        foreign = [x for x in atoms(a) if x not in wa]
        if not foreign: return ('ne', showmodel(m))
        wl = set().union(*[leaves(x) for x in wa]) if wa else set()
        if all(x[0] in ('isa', 'throws') or (free and free(x)) or (not (leaves(x) & wl) and leaves(x) and not any(y[0] in OPAQUE for y in subterms(x))) for x in foreign):
            return ('ne', showmodel(m))
    hits = 0; opaque = False
    for i in range(3000):
        R = Rand((seed, i), special)
        try:
            if not R.b(f): continue
            R.opaque = False
            x, y = R.b(a), R.b(b)
        except (Unknown, TypeError, OverflowError): continue
        mm = {k[0]: v for k, v in R.vals.items() if k[0][0] in ('isa', 'throws', 'has', 'mempty')}
        if not consistent(mm): continue
        hits += 1
        if x != y:
            if R.opaque: return ('?', 'depends on values without a closed form')
            return ('ne', ', '.join('%s=%s' % (show(k[0]), v) for k, v in list(R.vals.items())[:8]))
    if hits < 20: return ('?', 'no sample satisfies the assumptions')
    return 'eq'

def cases(t, c=TRUE):
    """the leaves of a gated term with their conditions"""
    if t[0] == 'ite':
        yield from cases(t[2], and_(c, t[1])); yield from cases(t[3], and_(c, not_(t[1])))
    else: yield c, t

def _bits(f):
    def g(self, t, w):
        a, b = self.n(t[1]), self.n(t[2])
        if not (isinstance(a, int) and isinstance(b, int)): raise Unknown('bits of a real number')
        if f in ('l', 'r') and not 0 <= b < 64: raise Unknown('shift')
        return a & b if f == '&' else a | b if f == '|' else a ^ b if f == '^' else a << b if f == 'l' else a >> b
    return g
for _n, _f in (('band', '&'), ('bor', '|'), ('bxor', '^'), ('shl', 'l'), ('shr', 'r')): setattr(Rand, 'e_' + _n, _bits(_f))

def _narrow(self, t, w):
    v = self.n(t[1])
    if not isinstance(v, int): raise Unknown('conversion of a real number')
    v %= 1 << t[2]
    return v - (1 << t[2]) if t[3] and v >> (t[2] - 1) else v
Rand.e_narrow = _narrow
