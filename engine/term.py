"""Hash-consed value terms with light normalisation.

A term is a tuple whose first item is its operator; equal terms are equal tuples.
  ('int', n) ('flt', x) ('bool', b) ('str', s) ('null',) ('fn', name) ('none',)
  ('in', key)            value a location has when the analysed code starts
  ('kap', L)             number of completed iterations of loop L
  ('phi', L, key)        value of a location at the start of an iteration of L (no closed form)
  ('lo', L, key)         ... and after the loop
  ('kx', L)              iteration in which L was left early
  ('exists', L, p)       p holds in some iteration of L
  ('ev', id, what)       result of an opaque operation (event)
  add mul div idiv mod neg lt le eq and or not ite min max ... : operators
  ('uf', name, ...)      pure function of its arguments
"""
import math

TRUE = ('bool', True)
FALSE = ('bool', False)
NULL = ('null',)
ZERO = ('int', 0)
ONE = ('int', 1)

def num(x):
    if isinstance(x, bool): return ('bool', x)
    if isinstance(x, int): return ('int', x)
    return ('flt', float(x))

def isnum(t): return t[0] in ('int', 'flt')
def isconst(t): return t[0] in ('int', 'flt', 'bool', 'str', 'null')

def val(t): return t[1]

def add(a, b):
    if isnum(a) and isnum(b):
        return num(a[1] + b[1]) if (a[0] == 'int' and b[0] == 'int') else num(float(a[1]) + float(b[1]))
    if isnum(a) and a[1] == 0: return b
    if isnum(b) and b[1] == 0: return a
    terms = {}
    c = [0]
    for t in (a, b):
        for k, n in _lin(t): 
            if k is None: c[0] = c[0] + n
            else: terms[k] = terms.get(k, 0) + n
    return _unlin(terms, c[0])

def _lin(t, s=1):
    if t[0] == 'add':
        for x in t[1:]:
            yield from _lin(x, s)
    elif t[0] == 'mul' and len(t) == 3 and isnum(t[1]):
        yield from _lin(t[2], s * t[1][1])
    elif isnum(t):
        yield None, s * t[1]
    else:
        yield t, s

def _unlin(terms, c):
    out = []
    for k, n in terms.items():
        if n == 0: continue
        out.append(k if n == 1 and not isinstance(n, float) or n == 1 else ('mul', num(n), k))
    out.sort(key=skey)
    if c != 0 or not out: out.append(num(c))
    if len(out) == 1: return out[0]
    return ('add',) + tuple(out)

_sk = {}
def skey(t):
    r = _sk.get(t)
    if r is None:
        r = repr(t); _sk[t] = r
    return r

def neg(a): return mul(('int', -1), a)
def sub(a, b): return add(a, neg(b))

def mul(a, b):
    if isnum(a) and isnum(b):
        x = a[1] * b[1]
        return num(x) if (a[0] == 'int' and b[0] == 'int') else num(float(x))
    if isnum(b): a, b = b, a
    if isnum(a):
        if a[1] == 1: return b
        if a[1] == 0 and a[0] == 'int': return ZERO
        if b[0] == 'add':
            terms = {}; c = 0
            for k, n in _lin(b, a[1]):
                if k is None: c += n
                else: terms[k] = terms.get(k, 0) + n
            return _unlin(terms, c)
        if b[0] == 'mul' and isnum(b[1]):
            return mul(mul(a, b[1]), b[2])
        return ('mul', a, b)
    # pull constants out
    ca = cb = None
    if a[0] == 'mul' and isnum(a[1]): ca, a = a[1], a[2]
    if b[0] == 'mul' and isnum(b[1]): cb, b = b[1], b[2]
    fs = sorted((list(a[1:]) if a[0] == 'prod' else [a]) + (list(b[1:]) if b[0] == 'prod' else [b]), key=skey)
    p = ('prod',) + tuple(fs)
    c = None
    if ca is not None: c = ca
    if cb is not None: c = mul(c, cb) if c is not None else cb
    return mul(c, p) if c is not None else p

def fdiv(a, b):
    if isnum(a) and isnum(b) and b[1] != 0: return num(float(a[1]) / float(b[1]))
    if isnum(b) and b[1] == 1: return a
    return ('div', a, b)

def idiv(a, b):
    if isnum(a) and isnum(b) and b[1] != 0:
        q = abs(a[1]) // abs(b[1]); return num(q if (a[1] >= 0) == (b[1] >= 0) else -q)
    if isnum(b) and b[1] == 1: return a
    return ('idiv', a, b)

def mod(a, b):
    if isnum(a) and isnum(b) and b[1] != 0: return num(int(math.fmod(a[1], b[1])))
    return ('mod', a, b)

def lt(a, b):
    if isnum(a) and isnum(b): return num(a[1] < b[1])
    if a == b: return FALSE
    return ('lt', a, b)

def le(a, b):
    if isnum(a) and isnum(b): return num(a[1] <= b[1])
    return ('le', a, b)

OWNED = set()       # fields that hold an owning pointer and are never empty
NEVERNULL = set()   # operations that never give nothing
READY = set()       # yes/no fields that are set once an object is prepared
def _nonnull(x):
    if x[0] == 'ev': return x[2] in NEVERNULL
    return x[0] == 'in' and len(x[1]) > 1 and x[1][-1] in OWNED

def eq(a, b):
    if isconst(a) and isconst(b):
        if a[0] == 'null' or b[0] == 'null':
            if a[0] == b[0]: return TRUE
            return FALSE
        return num(a[1] == b[1])
    if a == b and a[0] not in ('sel',): return TRUE
    if a[0] == 'mend' and b[0] == 'mit': a, b = b, a
    if a[0] == 'mit' and b[0] == 'mend':
        v = sel(a[3], ('ix', a[2]))
        return not_(('has', v[1], v[2][1]) if v[0] == 'sel' else v)
    if a == b: return ('eq', a, b) if _maybe_float(a) else TRUE
    if a[0] == 'bool': a, b = b, a
    if b[0] == 'bool': return a if b[1] else not_(a)
    if b[0] == 'null' and a[0] in ('addr', 'ptr', 'new', 'lam'): return FALSE
    if a[0] == 'null' and b[0] in ('addr', 'ptr', 'new', 'lam'): return FALSE
    if b[0] == 'null' and _nonnull(a): return FALSE
    if a[0] == 'null' and _nonnull(b): return FALSE
    if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]: return eq(a[2], b[2])
    if a[0] == 'addr' and b[0] == 'addr' and _distinct_locs(a[1], b[1]): return FALSE
    if a[0] == 'ite' and isconst(b) and (isconst(a[2]) or isconst(a[3])): return ite(a[1], eq(a[2], b), eq(a[3], b))
    if b[0] == 'ite' and isconst(a) and (isconst(b[2]) or isconst(b[3])): return ite(b[1], eq(a, b[2]), eq(a, b[3]))
    d = None
    if skey(b) < skey(a): a, b = b, a
    return ('eq', a, b)

def _distinct_locs(a, b):
    # two different named variables/fields can't be the same object
    return a != b and isinstance(a, tuple) and isinstance(b, tuple) and not any(isinstance(x, tuple) and x and x[0] == '[]' for x in a + b) and not _opaque(a[0]) and not _opaque(b[0]) and (a[0] != b[0] or (a[:len(b)] != b and b[:len(a)] != a))
def _opaque(r): return isinstance(r, tuple) and r and r[0] in ('deref', 'p')

def _maybe_float(a): return False

_MEMO = {}
def _room():
    # (results may depend on what is known never to be null; ctx.use() clears this)
    if len(_MEMO) > 200000: _MEMO.clear()

def not_(a):
    if a[0] == 'bool': return num(not a[1])
    if a[0] == 'not': return a[1]
    if a[0] in ('and', 'or'):
        r = _MEMO.get(a)
        if r is None:
            r = _MEMO[a] = (or_ if a[0] == 'and' else and_)(*[not_(x) for x in a[1:]])
            _room()
        return r
    if a[0] == 'ite' and (a[2][0] == 'bool' or a[3][0] == 'bool'): return ite(a[1], not_(a[2]), not_(a[3]))
    return ('not', a)

def and_(*xs):
    if len(xs) == 1 and xs[0][0] not in ('and', 'or'): return xs[0]
    k = ('and()',) + xs; r = _MEMO.get(k)
    if r is None:
        r = _MEMO[k] = _and(xs); _room()
    return r

def _and(xs):
    s = {}
    for x in xs:
        for y in (x[1:] if x[0] == 'and' else (x,)):
            if y == TRUE: continue
            if y == FALSE: return FALSE
            s[y] = 1
    for y in list(s):
        if not_(y) in s: return FALSE
    # an element's presence makes a map non-empty
    for y in list(s):
        if y[0] == 'not' and y[1][0] == 'mempty' and any(z[0] == 'has' and z[1] == y[1][1] for z in s): del s[y]
        elif y[0] == 'mempty' and any(z[0] == 'has' and z[1] == y[1] for z in s): return FALSE
    # absorb: x and (x or y) = x ; x and (not x or y) = x and y
    out = dict(s)
    changed = True
    while changed:
        changed = False
        for y in list(out):
            if y[0] == 'or':
                ds = list(y[1:])
                if any(d in out for d in ds): del out[y]; changed = True; break
                nd = [d for d in ds if not_(d) not in out]
                if len(nd) != len(ds):
                    del out[y]
                    z = or_(*nd)
                    if z == FALSE: return FALSE
                    for w in (z[1:] if z[0] == 'and' else (z,)):
                        if w != TRUE: out[w] = 1
                    changed = True; break
    l = sorted(out, key=skey)
    if not l: return TRUE
    if len(l) == 1: return l[0]
    return ('and',) + tuple(l)

def or_(*xs):
    if len(xs) == 1 and xs[0][0] not in ('and', 'or'): return xs[0]
    k = ('or()',) + xs; r = _MEMO.get(k)
    if r is None:
        r = _MEMO[k] = _or(xs); _room()
    return r

def _or(xs):
    s = {}
    for x in xs:
        for y in (x[1:] if x[0] == 'or' else (x,)):
            if y == FALSE: continue
            if y == TRUE: return TRUE
            s[y] = 1
    for y in list(s):
        if y[0] != 'and' and not_(y) in s: return TRUE
    for y in list(s):
        if y[0] == 'mempty' and any(z[0] == 'not' and z[1][0] == 'has' and z[1][1] == y[1] for z in s): del s[y]
        elif y[0] == 'not' and y[1][0] == 'mempty' and any(z[0] == 'has' and z[1] == y[1][1] for z in s): s.pop(next(z for z in s if z[0] == 'has' and z[1] == y[1][1]))
    # factor the common part of conjunctions
    l = list(s)
    changed = True
    while changed:
        changed = False
        for i in range(len(l)):
            for j in range(len(l)):
                if i == j: continue
                A = set(l[i][1:]) if l[i][0] == 'and' else {l[i]}
                B = set(l[j][1:]) if l[j][0] == 'and' else {l[j]}
                if A <= B: l.pop(j); changed = True; break
                r1, r2 = A - B, B - A
                if len(r1) == 1 and len(r2) == 1 and not_(next(iter(r1))) == next(iter(r2)):
                    c = and_(*(A & B)); l = [x for k, x in enumerate(l) if k not in (i, j)] + [c]
                    if c == TRUE: return TRUE
                    changed = True; break
                # x or (not x and y) = x or y
                if len(r1) == 1 and not (A & B) and not_(next(iter(r1))) in B:
                    c = and_(*(B - {not_(next(iter(r1)))})); l[j] = c
                    if c == TRUE: return TRUE
                    changed = True; break
            if changed: break
    l = sorted(set(l), key=skey)
    if not l: return FALSE
    if len(l) == 1: return l[0]
    return ('or',) + tuple(l)

def ite(c, a, b):
    if c == TRUE: return a
    if c == FALSE: return b
    if a == b: return a
    if a[0] == 'bool' and b[0] == 'bool': return c if a[1] else not_(c)
    if a == TRUE: return or_(c, b)
    if a == FALSE: return and_(not_(c), b)
    if b == FALSE: return and_(c, a)
    if b == TRUE: return or_(not_(c), a)
    if c[0] == 'not': return ite(c[1], b, a)
    if a[0] == 'ite' and a[1] == c: a = a[2]
    if b[0] == 'ite' and b[1] == c: b = b[3]
    if a[0] == 'ptr' and b[0] == 'ptr' and a[1] == b[1]: return ('ptr', a[1], ite(c, a[2], b[2]))
    return ('ite', c, a, b)

def mk(op, *a): return (op,) + a

def tmin(a, b):
    if isnum(a) and isnum(b): return a if a[1] <= b[1] else b
    if a == b: return a
    return ('min', a, b)
def tmax(a, b):
    if isnum(a) and isnum(b): return b if a[1] <= b[1] else a
    if a == b: return a
    return ('max', a, b)

def tabs(a):
    if isnum(a): return num(abs(a[1]))
    if a[0] == 'abs': return a
    return ('abs', a)

_has = {}
def mentions(t, pred, _seen=None):
    """does any subterm satisfy pred?"""
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or id(x) in seen: continue
        seen.add(id(x))
        if x and isinstance(x[0], str) and pred(x): return True
        st.extend(y for y in x if isinstance(y, tuple))
    return False

def subterms(t):
    st = [t]; seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or x in seen: continue
        seen.add(x)
        if x and isinstance(x[0], str): yield x
        st.extend(y for y in x if isinstance(y, tuple))

def subst(t, m, memo=None):
    """replaces subterms (keys of m); rebuilds with the smart constructors"""
    if memo is None: memo = {}
    if not isinstance(t, tuple): return t
    if t in m: return m[t]
    r = memo.get(t)
    if r is not None: return r
    if t and isinstance(t[0], str):
        a = tuple(subst(x, m, memo) if isinstance(x, tuple) else x for x in t[1:])
        r = rebuild(t[0], a) if a != t[1:] else t
    else:
        r = tuple(subst(x, m, memo) if isinstance(x, tuple) else x for x in t)
    memo[t] = r
    return r

def rebuild(op, a):
    if op == 'add':
        r = ZERO
        for x in a: r = add(r, x)
        return r
    if op == 'mul': return mul(*a)
    if op == 'prod':
        r = ONE
        for x in a: r = mul(r, x)
        return r
    if op == 'div': return fdiv(*a)
    if op == 'idiv': return idiv(*a)
    if op == 'mod': return mod(*a)
    if op == 'lt': return lt(*a)
    if op == 'le': return le(*a)
    if op == 'eq': return eq(*a)
    if op == 'not': return not_(*a)
    if op == 'and': return and_(*a)
    if op == 'or': return or_(*a)
    if op == 'ite': return ite(*a)
    if op == 'min': return tmin(*a)
    if op == 'max': return tmax(*a)
    if op == 'abs': return tabs(*a)
    if op == 'sel': return sel(*a)
    if op == 'store': return store(*a)
    if op == 'empty':
        from .expr import empty
        return empty(*a)
    return (op,) + a

# ------------------------------------------------------------------ functional arrays
# ('in', key) ('constarr', v) ('store', arr, idx, v)  ('upd', arr, loops, idx, v, guard)  ('evout', id, n)
# idx: tuple ('ix', i) or ('ix', i, j)

def distinct(i, j):
    """provably different index tuples"""
    for a, b in zip(i[1:], j[1:]):
        d = sub(a, b)
        if isnum(d) and d[1] != 0: return True
        if a[0] == 'str' and b[0] == 'str' and a != b: return True
    return False

def sel(arr, idx):
    a = arr
    while True:
        if a[0] == 'store':
            if a[2] == idx: return a[3]
            if distinct(a[2], idx): a = a[1]; continue
            return ite(eqix(a[2], idx), a[3], sel(a[1], idx))
        if a[0] == 'constarr': return a[1]
        if a[0] == 'ite':
            return ite(a[1], sel(a[2], idx), sel(a[3], idx))
        if a[0] == 'upd':
            loops, uidx, v, g, Ts = a[2], a[3], a[4], a[5], a[6]
            s = solve_idx(uidx, idx, loops)
            if s is None: break
            m, conds = s
            rng = []
            for L, T in zip(loops, Ts):
                k = m[('kap', L)]
                if T is None: rng = None; break
                T = subst(T, m)
                rng.append(le(ZERO, k) if not nonneg(k) else TRUE)
                rng.append(lt(k, T))
            if rng is None: break
            inr = and_(subst(g, m), *rng, *conds)
            return ite(inr, subst(v, m), sel(a[1], idx))
        break
    if a[0] == 'in' and len(idx) == 2 and isinstance(a[1], tuple) and len(a[1]) > 1 and a[1][-2] == '#has': return ('has', a, idx[1])
    return ('sel', a, idx)

def nonneg(k):
    if isnum(k): return k[1] >= 0
    if k[0] in ('kap', 'kx'): return True
    if k[0] == 'add': return all(nonneg(x) for x in k[1:])
    if k[0] == 'mul' and isnum(k[1]): return k[1][1] >= 0 and nonneg(k[2])
    if k[0] == 'prod': return all(nonneg(x) for x in k[1:])
    return False

def eqix(i, j): return and_(*[eq(a, b) for a, b in zip(i[1:], j[1:])])

def solve_idx(uidx, idx, loops):
    """kappas of the loops for which uidx == idx, when each is determined by one component"""
    m = {}; conds = []
    if len(uidx) != len(idx): return None
    for u, j in zip(uidx[1:], idx[1:]):
        ks = [L for L in loops if mentions(u, lambda x, L=L: x == ('kap', L))]
        if not ks: conds.append(eq(u, j)); continue
        if len(ks) != 1: return None
        k = ('kap', ks[0]); d = sub(u, k)
        if not mentions(d, lambda x: x == k): v = sub(j, d)
        else:
            d = add(u, k)
            if mentions(d, lambda x: x == k): return None
            v = sub(d, j)
        if k in m: conds.append(eq(m[k], v))
        else: m[k] = v
    for L in loops:
        if ('kap', L) not in m: return None
    return m, conds

def store(arr, idx, v):
    if arr[0] == 'store' and arr[2] == idx: arr = arr[1]
    if v == ('sel', arr, idx): return arr
    return ('store', arr, idx, v)

# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, tuple): return str(t)
    if not t: return '()'
    o = t[0]
    if o in ('int', 'flt', 'bool'): return str(t[1])
    if o == 'str': return repr(t[1])
    if o == 'null': return 'null'
    if o == 'in': return showloc(t[1])
    if o == 'kap': return 'k%s' % t[1]
    if o == 'kx': return 'kx%s' % t[1]
    if o == 'phi': return 'phi%s(%s)' % (t[1], showloc(t[2]))
    if o == 'lo': return 'lo%s(%s)' % (t[1], showloc(t[2]))
    if o == 'add': return '(' + ' + '.join(show(x) for x in t[1:]) + ')'
    if o in ('mul', 'prod'): return '*'.join(show(x) for x in t[1:])
    if o == 'div': return '(%s / %s)' % (show(t[1]), show(t[2]))
    if o in ('lt', 'le', 'eq', 'mod', 'idiv'): return '(%s %s %s)' % (show(t[1]), {'lt': '<', 'le': '<=', 'eq': '==', 'mod': '%', 'idiv': '//'}[o], show(t[2]))
    if o == 'not': return '!' + show(t[1])
    if o in ('and', 'or'): return '(' + (' && ' if o == 'and' else ' || ').join(show(x) for x in t[1:]) + ')'
    if o == 'ite': return '(%s ? %s : %s)' % tuple(show(x) for x in t[1:])
    if o == 'sel': return '%s[%s]' % (show(t[1]), ','.join(show(x) for x in t[2][1:]))
    if o == 'addr': return '&' + showloc(t[1])
    if o == 'ptr': return '&%s[%s]' % (showloc(t[1]), show(t[2]))
    if o == 'exists': return 'exists%s{%s}' % (t[1], show(t[2]))
    if o == 'ev': return 'ev%s:%s' % (t[1], t[2])
    if o == 'uf': return '%s(%s)' % (t[1], ', '.join(show(x) for x in t[2:]))
    return o + '(' + ', '.join(show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in OPS else (showloc(x) if isinstance(x, tuple) else str(x)) for x in t[1:]) + ')'

OPS = set('mempty has isa throws isnan feq empty red ceildiv kn fmt mit mend int flt bool str null in kap kx phi lo add mul prod div idiv mod lt le eq not and or ite sel addr ptr exists ev uf min max abs store upd constarr evout cat fn lam round trunc f32 new'.split())

def showloc(l):
    if not isinstance(l, tuple): return str(l)
    out = ''
    for i, x in enumerate(l):
        if isinstance(x, tuple):
            if x and x[0] == '[]': out += '[' + show(x[1]) + ']' if len(x) > 1 else '[]'
            elif x and x[0] == 'deref': out += '*' + show(x[1])
            elif x and x[0] == 'var': out += str(x[-1])
            else: out += show(x) if x and x[0] in OPS else showloc(x)
        else: out += ('.' if i else '') + str(x)
    return out
