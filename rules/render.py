"""How a signal, effect or envelope fills its block: the summary's array terms are taken apart into families of writes - which
loops make them, at which index, with what value, under which condition - and into the recurrences of the state that is carried
from frame to frame."""
from .common import *

BLK = P('output')
NCH, NFR = ('in', BLK + ('#nch',)), ('in', BLK + ('#nfr',))
SBLK = ('in', BLK + SKEY)
CC, FF = ('in', P('c#size')), ('in', P('f#size'))
SIGNALS = ('hart::SineWave', 'hart::SineSweep', 'hart::WhiteNoise', 'hart::Silence', 'hart::WavFile')

class Fam:
    def __init__(self, loops, idx, val, guard, Ts): self.loops = loops; self.idx = idx; self.val = val; self.guard = guard; self.Ts = Ts
    def __repr__(self): return 'Fam(%s, %s, %s, if %s, T=%s)' % (self.loops, show(self.idx), clip(show(self.val), 150), show(self.guard), [show(t) for t in self.Ts])
    def key(self): return self.loops, self.idx, self.val, self.guard, self.Ts
    def under(self, c): return Fam(self.loops, self.idx, self.val, and_(self.guard, c), self.Ts)

def trips(s, L): return s.loops[L].T if s.loops[L].T is not None else ('kn', L)

def families(s, t, base, depth=0):
    """the writes that make t out of base, oldest first"""
    if t == base: return []
    if depth > 40: raise Unknown('nesting')
    o = t[0]
    if o == 'store': return families(s, t[1], base, depth + 1) + [Fam((), t[2], t[3], TRUE, ())]
    if o == 'upd': return families(s, t[1], base, depth + 1) + [Fam(tuple(t[2]), t[3], t[4], t[5], tuple(T_ if T_ is not None else trips(s, L) for L, T_ in zip(t[2], t[6])))]
    if o == 'ite':
        a, b = families(s, t[2], base, depth + 1), families(s, t[3], base, depth + 1)
        n = 0
        while n < min(len(a), len(b)) and a[n].key() == b[n].key(): n += 1          # made before the branches part
        return a[:n] + [f.under(t[1]) for f in a[n:]] + [f.under(not_(t[1])) for f in b[n:]]
    if o == 'resized': return families(s, t[1], base, depth + 1)
    if o in ('lo', 'phi'):
        L, key = t[1], t[2]; init, nxt = s.loops[L].phis[key]; me = ('phi', L, key)
        T_ = trips(s, L) if o == 'lo' else ('kx', L)
        return families(s, init, base, depth + 1) + [Fam((L,) + f.loops, f.idx, f.val, f.guard, (T_,) + f.Ts) for f in families(s, nxt, me, depth + 1)]
    if o == 'constarr' and base[0] == 'in': return [Fam((), None, t[1], TRUE, ())]
    raise Unknown('contents of the block: ' + clip(show(t), 100))

def split(fams):
    """one family per case of an index that depends on a condition"""
    out = []
    for f in fams:
        t = next((x for x in ([f.idx] + list(subterms(f.idx)) if f.idx is not None else []) if x[0] == 'ite'), None)
        if t is None: out.append(f); continue
        out += split([Fam(f.loops, subst(f.idx, {t: t[2]}), f.val, and_(f.guard, t[1]), f.Ts), Fam(f.loops, subst(f.idx, {t: t[3]}), f.val, and_(f.guard, not_(t[1])), f.Ts)])
    return out

def at(f, ix):
    """(condition under which the family writes element ix, its counters there)"""
    if f.idx is None: return f.guard, {}
    used = [L for L in f.loops if mentions(f.idx, lambda x: x == ('kap', L))]
    r = T.solve_idx(f.idx, ix, used)
    if r is None: raise Unknown('index ' + show(f.idx))
    m, conds = r; cs = list(conds)
    for L, T_ in zip(f.loops, f.Ts):
        if L not in used:                       # writes the same element in every turn: the last one counts
            if mentions(f.guard, lambda x: x == ('kap', L)): raise Unknown('condition of a repeated write')
            m[('kap', L)] = sub(T_, ONE)
    for L, T_ in zip(f.loops, f.Ts):
        k = subst(m[('kap', L)], m); m[('kap', L)] = k
        cs += [le(ZERO, k), lt(k, subst(T_, m))]
    return and_(subst(f.guard, m), *cs), m

# ---------------------------------------------------------------- exhaustive search over small numbers
def code(t, names):
    o = t[0]
    if o in ('int', 'flt', 'bool'): return repr(t[1])
    if o == 'in': return names.setdefault(t, 'x%d' % len(names))
    if o == 'empty': return names.setdefault(t, 'x%d' % len(names))
    a = [code(x, names) for x in t[1:]] if o not in ('ceildiv',) else [code(x, names) for x in t[1:]]
    if o == 'add': return '(' + '+'.join(a) + ')'
    if o in ('mul', 'prod'): return '(' + '*'.join(a) + ')'
    if o == 'lt': return '(%s<%s)' % tuple(a)
    if o == 'le': return '(%s<=%s)' % tuple(a)
    if o in ('eq', 'feq'): return '(%s==%s)' % tuple(a)
    if o == 'not': return '(not %s)' % a[0]
    if o == 'and': return '(' + ' and '.join(a) + ')'
    if o == 'or': return '(' + ' or '.join(a) + ')'
    if o == 'ite': return '(%s if %s else %s)' % (a[1], a[0], a[2])
    if o in ('min', 'max', 'abs'): return '%s(%s)' % (o, ','.join(a))
    if o == 'idiv': return '(%s//(%s or 1))' % tuple(a)
    if o == 'mod': return '(%s%%(%s or 1))' % tuple(a)
    if o == 'ceildiv': return '(-(-%s//(%s or 1)))' % tuple(a)
    if o == 'f32' or o == 'trunc': return a[0]
    raise Unknown('search over ' + o)

def counterexample(ctx, cond, guard, isbool=lambda t: False, n=200000):
    """small numbers for which guard holds and cond does not, or None. Leaves are counts (0..4, and around constants) or truth values"""
    import random, itertools
    names = {}; src = '(%s) and not (%s)' % (code(guard, names), code(cond, names))
    vs = list(names); cs = sorted({x[1] for t in (cond, guard) for x in [t] + list(subterms(t)) if x[0] == 'int' and isinstance(x[1], int) and x[1] > 3})
    f = eval('lambda %s: %s' % (','.join(names.values()), src)) if vs else eval('lambda: ' + src)
    bools = boolleaves(and_(guard, not_(cond))) | boolleaves(cond) | boolleaves(guard)
    dom = [(False, True) if v in bools or isbool(v) else (0, 1, 2, 3) for v in vs]
    tot = 1
    for d in dom: tot *= len(d)
    if tot <= n:
        for v in itertools.product(*dom):
            if f(*v): return dict(zip(vs, v))
    R = random.Random(ctx.seed)
    wide = [d if len(d) == 2 else tuple(range(7)) + tuple(y for c in cs for y in (c - 1, c, c + 1, c + 2, 2 * c)) for d in dom]
    for _ in range(n if tot > n else n // 4 if cs else 20000):
        v = [R.choice(d) for d in wide]
        if f(*v): return dict(zip(vs, v))
    return None

def boolleaves(t, pos=True, out=None):
    if out is None: out = set()
    if t[0] in ('in', 'empty') and pos: out.add(t)
    elif t[0] in ('and', 'or', 'not'):
        for x in t[1:]: boolleaves(x, True, out)
    elif t[0] == 'ite': boolleaves(t[1], True, out); boolleaves(t[2], pos, out); boolleaves(t[3], pos, out)
    else:
        for x in t[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] not in ('in',): boolleaves(x, False, out)
    return out

class Names:
    """opaque values become names: conditions truth values, counts small numbers"""
    def __init__(self, s): self.s = s; self.m = {}; self.rev = {}
    def __call__(self, t):
        if t in self.m: return self.m[t]
        o = t[0]
        if o in ('exists', 'isnan') or o in ('eq', 'lt', 'le', 'feq', 'empty', 'has') and any(x[0] in ('phi', 'lo', 'ev', 'undef', 'uf', 'evout') for x in subterms(t)): r = self.name(t, 'b%d')
        elif o in ('kx', 'kn'): r = self.name(t, o + '%d#size')
        elif o in ('phi', 'lo', 'uf', 'ev', 'evout', 'undef', 'sel'): r = self.name(t, 'v%d#size')
        elif o in ('in', 'int', 'flt', 'bool', 'str', 'kap', 'null'): r = t
        else:
            sub_ = {x: self(x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)}
            r = T.rebuild(o, tuple(sub_.get(x, x) if isinstance(x, tuple) else x for x in t[1:]))
        self.m[t] = r
        return r
    def name(self, t, f):
        n = ('in', P(f % len(self.rev))); self.rev[n] = t; return n
    def facts(self):
        """what is known of the named counts"""
        out = []
        for n, t in list(self.rev.items()):
            if t[0] == 'kx' and self.s.loops[t[1]].T is not None: out.append(lt(n, self(self.s.loops[t[1]].T)))
            if t[0] == 'kn':
                c = self.s.loops[t[1]].cond; cl = closedpart(c, t[1])
                if cl is not None: out.append(or_(eq(n, ZERO), subst(cl, {('kap', t[1]): sub(n, ONE)})))       # the last turn's condition held
                whole = self.s.loops[t[1]].cond
                if self.s.loops[t[1]].exitcond == FALSE and pureclosed(whole, t[1]): out.append(not_(subst(whole, {('kap', t[1]): n})))
        return out

def conj(c): return list(c[1:]) if c[0] == 'and' else [c]
def pureclosed(c, L): return not any(x[0] in ('phi', 'lo', 'kx', 'kn', 'exists', 'ev') for x in [c] + list(subterms(c)))
def closedpart(c, L):
    cs = [x for x in conj(c) if x != TRUE and pureclosed(x, L)]
    return and_(*cs) if cs else None
def openpart(c, L): return [x for x in conj(c) if x != TRUE and not pureclosed(x, L)]

SMALL = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]
def sizes(terms):
    cs = sorted({x[1] for t in terms for x in [t] + list(subterms(t)) if x[0] == 'int' and isinstance(x[1], int) and 10 < x[1] < 10 ** 7})
    def pick(r, t):
        if cs and r.random() < .3: c = r.choice(cs); return max(0, r.choice([c, c - 1, c + 1, c + 5, 2 * c]))
        return r.choice(SMALL) if r.random() < .85 else r.choice([16, 64, 1000, 5000])
    return pick

def covered(ctx, rule, where, s, fams, facts, what, nch=NCH, nfr=NFR):
    """every element of the block is written by one of the families"""
    N = Names(s); cs = []
    for f in fams:
        c, m = at(f, ('ix', CC, FF)); cs.append(N(c))
    c = or_(*cs) if cs else FALSE
    asm = [lt(CC, N(nch)), lt(FF, N(nfr))] + [N(x) for x in facts]
    asm += N.facts()
    w = counterexample(ctx, c, and_(*asm))
    if w is None: ctx.ok(rule, where, what); return True
    # is the gap real? a loop of unknown length may be left early only if its open condition can fail at once
    for n, t in N.rev.items():
        if t[0] == 'kn':
            lp = s.loops[t[1]]; op = openpart(lp.cond, t[1])
            init = {('phi', t[1], k): i for k, (i, nx) in lp.phis.items()}
            if lp.exitcond != FALSE or not op or not all(possible(ctx, subst(not_(x), init)) for x in op): ctx.unk(rule, where, '%s: length of a loop' % what); return None
        elif t[0] not in ('exists', 'kx', 'eq', 'lt', 'le', 'feq', 'isnan'): ctx.unk(rule, where, '%s: depends on %s' % (what, clip(show(t), 120))); return None
    ctx.bad(rule, where, '%s: not all - written are those with %s' % (what, clip(' or '.join(show(x) for x in cs) or 'none', 400)) + '; e.g. not ' + ', '.join('%s=%s' % (show(k), v) for k, v in w.items()))
    return False

def rendered(ctx, q):
    """(class, render function, summary, final contents of the block)"""
    rec = ctx.rec(q); f = ctx.method(rec, 'renderNextBlock', 1); s = ctx.run(f, rec, [BLK])
    return rec, f, s, s.arr(BLK + SKEY)

def prepared(ctx, rec):
    """{field: value after prepare (rate, channels of the block, max)}"""
    f = ctx.method(rec, 'prepare', 3); s = ctx.run(f, rec, [('in', P('rate')), NCH, ('in', P('max#size'))])
    return {('in', k): v for k, v in s.st.store.items() if k[:1] == ('this',) and isinstance(v, tuple) and v and isinstance(v[0], str) and v != ('in', k)}, s

def writtenfields(s):
    return {k: v for k, v in s.st.store.items() if k[:1] == ('this',) and isinstance(v, tuple) and v and isinstance(v[0], str) and v != ('in', k)}

# ---------------------------------------------------------------- what the contents of a block depend on
def allterms(s):
    seen = set()
    for v in list(s.st.store.values()) + [x for lp in s.loops.values() for ph in lp.phis.values() for x in ph]:
        if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] != 'P':
            for x in [v] + list(subterms(v)):
                if x not in seen: seen.add(x); yield x

class Abs:
    """what inner loops give is a name; they are compared on their own"""
    def __init__(self): self.memo = {}; self.loops = set(); self.phis = set()
    def __call__(self, t):
        if t in self.memo: return self.memo[t]
        o = t[0]
        if o == 'exists': self.loops.add(t[1]); r = ('in', P('left%d' % t[1]))
        elif o in ('kx', 'kn'): self.loops.add(t[1]); r = ('in', P('%s%d#size' % (o, t[1])))
        elif o in ('lo', 'phi'): self.loops.add(t[1]); self.phis.add((t[1], t[2])); r = (o, t[1], t[2])
        elif o in ('in', 'int', 'flt', 'bool', 'str', 'kap', 'null'): r = t
        else:
            m = {x: self(x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)}
            r = T.rebuild(o, tuple(m.get(x, x) if isinstance(x, tuple) else x for x in t[1:]))
        self.memo[t] = r; return r


class Obs: pass

def observed(s, outk, NF, pre={}, facts=()):
    """the values written, their conditions, the loops and the values carried by them, the fields of the object that matter to them"""
    O = Obs()
    O.norm = norm = lambda t: subst(t, pre) if pre else t
    O.fams = fams = split([Fam(x.loops, norm(x.idx) if x.idx is not None else None, norm(x.val), norm(x.guard), tuple(norm(t) for t in x.Ts)) for x in families(s, s.arr(outk), ('in', outk))])
    if not fams: return None
    O.left = left = {('in', k): norm(v) for k, v in writtenfields(s).items()}
    O.perframe = {x.loops[i] for x in fams for i in range(len(x.loops)) if x.idx is not None and mentions(x.idx[-1], lambda y: y == ('kap', x.loops[i]))}
    O.A = A = Abs(); F = Facts([lt(FF, NF)] + [norm(x) for x in facts]) if facts else None
    todo = []
    for x in fams:
        if x.idx is None: continue
        c, m = at(x, fx(x))
        v = subst(x.val, m); todo.append(('value', x, A(F.simp(v) if F else v))); todo.append(('condition', x, A(subst(x.guard, m))))
    O.seen = seen = set(); O.terms = terms = []; O.fields = fieldsread = set(); stepped = set(); O.carried = carried = {}
    O.reads = set()
    while todo:
        kind, w, t = todo.pop()
        terms.append((kind, w, t))
        for y in [t] + list(subterms(t)):
            if y[0] == 'in' and y[1][:1] == ('this',): O.reads.add(y)
            if y[0] == 'in' and y in left and y not in fieldsread:
                fieldsread.add(y); todo.append(('left', y, A(left[y])))
        for L in sorted(A.loops):
            if L in seen: continue
            seen.add(L); lp = s.loops[L]
            todo.append(('length', L, A(norm(lp.cond if lp.T is None else lp.T)))); todo.append(('start', L, A(norm(lp.pc))))
            if lp.exitcond != FALSE: todo.append(('exit', L, A(norm(lp.exitcond))))
        for (L, k) in sorted(A.phis, key=repr):
            if (L, k) in stepped or k == outk: continue
            stepped.add((L, k)); i, nx = s.loops[L].phis[k]
            if nx != ('phi', L, k): carried[(L, k)] = (norm(i), norm(nx)); todo.append(('step', (L, k), A(norm(nx)))); todo.append(('init', (L, k), A(norm(i))))
    return O

def fx(x): return ('ix', CC, FF) if len(x.idx) == 3 else ('ix', FF)

def signalblock(ctx, q):
    rec, f, s, a = rendered(ctx, q)
    return q.split('::')[1], f, s, BLK + SKEY, NFR, []

def effectblock(ctx, rec):
    f = ctx.method(rec, 'process', 3); s = ctx.run(f, rec, [IN, OUT, ENV])
    E = {t for t in allterms(s) if t[0] == 'sel' and t[1][0] == 'in' and t[1][1][-1] == '#size' and t[1][1][:-1] == ENV + (('[]',),)}
    return rec['q'].split('::')[1], f, s, OUT + SKEY, FIN, [SIN, ('in', ENV + (('[]',), ('[]',)))], {FOUT: FIN}, [le(FIN, t) for t in E]

def envelopeblock(ctx, rec):
    f = ctx.method(rec, 'renderNextBlock', 2); s = ctx.run(f, rec, [('in', P('bs')), BLK])
    return rec['q'].split('::')[1], f, s, BLK + (('[]',),), ('in', P('bs')), [], {('in', BLK + ('#size',)): ('in', P('bs'))}

def iso(s1, a, s2, b, m=None):
    """are two terms of two summaries the same up to the numbering of loops?"""
    if m is None: m = {}
    if not isinstance(a, tuple) or not isinstance(b, tuple): return a == b
    if len(a) != len(b): return False
    if a and a[0] in ('kn', 'kx', 'lo', 'phi', 'exists', 'kap', 'forall') and a[0] == b[0]:
        x, y = a[1], b[1]
        if m.get(x) == y: return a[2:] == b[2:] or a[0] == 'exists'
        if x in m or a[0] in ('phi', 'kap') or x not in s1 or y not in s2: return a == b
        m[x] = y; p, q = s1[x], s2[y]
        if set(p.phis) != set(q.phis): return False
        for u, v in [(p.T, q.T), (p.cond, q.cond), (p.exitcond, q.exitcond)] + [(p.phis[k][i], q.phis[k][i]) for k in p.phis for i in (0, 1)]:
            if (u is None) != (v is None) or u is not None and not iso(s1, u, s2, v, m): return False
        return a[0] == 'exists' or a[2:] == b[2:]
    return all(iso(s1, x, s2, y, m) for x, y in zip(a, b))

def noturns(loops, t):
    """(term, condition): the case in which loops of unknown length are not entered"""
    g = []; m = {}
    for x in [t] + list(subterms(t)):
        if x[0] == 'kn' and x[1] in loops and loops[x[1]].T is None:
            lp = loops[x[1]]; z = {('kap', x[1]): ZERO}; z.update({('phi', x[1], k): i for k, (i, n) in lp.phis.items()})
            m[x] = ZERO; g.append(not_(subst(lp.cond, z)))
    return subst(t, m), and_(*g)
