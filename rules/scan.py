"""What a matcher's match() decides, as a verdict over the samples of the judged buffer: either every sample has to satisfy
a condition, or a condition on the largest of a per-sample value. Both are read off the summary's loops: which iterations
they make, which sample each iteration looks at, what it does with it."""
from .common import *

OBS = P('obs')
SOBS = ('in', OBS + SKEY)
NC, NF = ('in', OBS + ('#nch',)), ('in', OBS + ('#nfr',))
X, R_, ACC = ('in', P('x')), ('in', P('r')), ('in', P('acc'))
V0, V1 = ('in', P('V0')), ('in', P('V1'))

def loopsof(t): return [x for x in subterms(t) if x[0] in ('exists', 'lo', 'red', 'kx', 'forall') or x[0] == 'phi']

def peel(t):
    """exists nest -> (loops, condition per iteration)"""
    if t[0] != 'exists': return [], t
    L, b = t[1], t[2]
    if b[0] == 'and':
        ex = [x for x in b[1:] if x[0] == 'exists']
        if len(ex) == 1:
            ls, c = peel(ex[0]); return [L] + ls, and_(c, *[x for x in b[1:] if x[0] != 'exists'])
    ls, c = peel(b)
    return [L] + ls, c

def topleaves(t, ops):
    if t[0] in ops: return [t]
    out = []
    for x in t[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            for y in topleaves(x, ops):
                if y not in out: out.append(y)
    return out

class Fold:
    """the value of a location after a nest of loops: per level its start value and its update (acc stands for the value so far)"""
    def __init__(self, s, t):
        self.levels = []; self.key = t[2] if t[0] == 'lo' else None
        self.build(s, t)
    def build(self, s, t):
        if t[0] == 'red':
            L, v, init = t[2], t[3], t[4]
            st = tmax_any(ACC, v)
            for k, (i, n) in s.loops[L].phis.items():
                ph = ('phi', L, k)
                if n[0] == 'max' and ph in n[1:] and v in n[1:]: st = subst(n, {ph: ACC}); break
            else: self.order = False
        else:
            L = t[1]; lp = s.loops[L]
            if t[2] not in lp.phis: raise Unknown('recurrence of ' + show(t))
            init, n = lp.phis[t[2]]
            st = subst(n, {('phi', L, t[2]): ACC})
        inner = [x for x in topleaves(st, ('lo', 'red')) if x[0] == 'red' or x[1] != L]
        inner = [x for x in inner if any(mentions(y, lambda z: z == SOBS) or True for y in [x])]
        if not inner: self.levels.append((L, init, st)); return
        if len(inner) > 1: raise Unknown('several values from inner loops')
        f = Fold(s, inner[0])
        if st == inner[0] and f.levels[0][1] == ('phi', L, t[2] if t[0] == 'lo' else None) or f.levels[0][1] == ACC or (t[0] == 'lo' and f.levels[0][1] == ('phi', L, t[2])):
            if st != inner[0]: raise Unknown('value of an inner loop')
            self.levels.append((L, init, None)); self.levels += f.levels
        else:
            self.levels.append((L, init, subst(st, {inner[0]: X}))); self.levels += f.levels
    def loops(self): return [l[0] for l in self.levels]
    def steps(self):
        """(update, per-sample?) for every level that updates; the innermost sees samples, the others the inner result (x)"""
        return [l for l in self.levels if l[2] is not None]

def tmax_any(a, b): return ('max', a, b)

def cases_index(ctx, where, s, body, loops, rule, what, arr=SOBS):
    """the one index of the judged buffer that an iteration reads"""
    ix = {x[2] for x in subterms(body) if x[0] == 'sel' and x[1] == arr}
    if len(ix) != 1: ctx.unk(rule, where, '%s: an iteration looks at %d samples' % (what, len(ix))); return None
    ix = ix.pop()
    for x in ix[1:]:
        if x[0] == 'phi' and x[1] in loops and x[2] in s.loops[x[1]].phis:
            i, n = s.loops[x[1]].phis[x[2]]; n0 = n; z = ('in', P('i#size')); n = subst(n, {x: z})
            if i == ZERO and all(y == z or y[0] not in ('in', 'phi', 'lo', 'ev', 'sel', 'kap', 'kx') for y in [n] + list(subterms(n))):
                cs = sorted({y[1] for y in [n] + list(subterms(n)) if y[0] == 'int' and y[1] > 1}) or [1]
                r = compare(n, add(z, ONE), None, n=400, seed=ctx.seed, special=[(lambda t: t == z, lambda r, t: r.choice([0, 1, 2, 3, 5, 8, 100, 4096, r.choice(cs), r.choice(cs) + 1, r.choice(cs) - 1, 3 * r.choice(cs)]))])
                if r[0] == 'ne': ctx.bad(rule, where, '%s: the index does not go up by one from every place (next: %s)' % (what, clip(show(n0), 120))); return None
    if not all(pure(x) for x in ix[1:]): ctx.unk(rule, where, '%s: index %s' % (what, show(ix))); return None
    return ix

def coverage(ctx, rule, where, s, loops, ix, what, allowed=None):
    """do the iterations of the nest look at every sample of every channel? decided by the closed forms of the numbers of
    iterations and of the index"""
    Ts = []
    for L in loops:
        lp = s.loops[L]
        if lp.T is None or not pure(lp.T): ctx.unk(rule, where, '%s: number of iterations of a loop' % what); return None
        Ts.append(lp.T)
        if lp.pc != TRUE and not (allowed and lp.pc == allowed):
            p = possible(ctx, not_(lp.pc), tuple(lp.asm or ()) + (lt(ZERO, NC), lt(ZERO, NF)))
            if p is not False: (ctx.bad if p else ctx.unk)(rule, where, '%s: a loop is skipped unless %s' % (what, clip(show(lp.pc), 200))); return False if p else None
    def run(nc, nf, seed):
        got = set(); rnd = {}
        def rec(i, env):
            def sp(r, t): return env[t]
            R = sem.Rand((seed, 'cov'), [(lambda t: t in env, sp), (lambda t: sem.is_unsigned_leaf(t), lambda r, t: r.choice([0, 1, 2, 3, 7, 100]))])
            if i == len(loops):
                got.add((R.n(ix[1]), R.n(ix[2]))); return
            n = R.n(Ts[i])
            if n > 4 * (nc + 1) * (nf + 1) + 4: raise Unknown('iterations')
            for k in range(int(n)):
                e2 = dict(env); e2[('kap', loops[i])] = k; rec(i + 1, e2)
        rec(0, {NC: nc, NF: nf})
        return got
    for nc in (1, 2, 3):
        for nf in (1, 2, 3, 4, 5, 8, 9):
            for seed in range(2):
                try: g = run(nc, nf, seed)
                except Unknown as x: ctx.unk(rule, where, '%s: %s' % (what, x)); return None
                full = {(c, f) for c in range(nc) for f in range(nf)}
                if g != full:
                    miss = sorted(full - g); extra = sorted(g - full)
                    ctx.bad(rule, where, '%s: of a buffer of %d channels and %d frames, %s' % (what, nc, nf, 'sample (channel %s, frame %s) is left out' % miss[0] if miss else 'the loops reach outside (channel %s, frame %s)' % extra[0])); return False
    # any size: the bounds are the channel and frame counts themselves, or agree with them on large values
    ks = [('kap', L) for L in loops]
    if len(loops) == 2 and set(Ts) == {NC, NF} and {ix[1], ix[2]} <= {ks[0], ks[1], sub(sub(Ts[0], ONE), ks[0]), sub(sub(Ts[1], ONE), ks[1])}: ctx.ok(rule, where, what); return True
    tot = ONE
    for t in Ts: tot = mul(tot, t)
    big = [(lambda t: t == NC, lambda r, t: r.choice([1, 2, 6, 16, 64, 128])), (lambda t: t == NF, lambda r, t: r.choice([1, 64, 1024, 44100, 5000, 100000, 2 ** 20, r.choice(cs) + r.choice([-1, 0, 1, 7, 1000]) if cs else 8, 3 * r.choice(cs) if cs else 9]))]
    cs = sorted({x[1] for t in Ts + list(ix[1:]) for x in list(subterms(t)) + [t] if x[0] == 'int' and x[1] > 1})
    r = compare(tot, mul(NC, NF), None, n=400, seed=ctx.seed, special=big)
    if r == 'eq': ctx.ok(rule, where, what); return True
    (ctx.bad if r[0] == 'ne' else ctx.unk)(rule, where, '%s: %s samples of %s' % (what, clip(show(tot), 120), clip(show(mul(NC, NF)), 80))); return False

def generic(body, arrays):
    """per-iteration term with the sample(s) it reads replaced by symbols: arrays {array: (index, symbol)}"""
    return subst(body, {('sel', a, ix): y for a, (ix, y) in arrays.items()})

def verdict(s, ret):
    """('all', loops, per-sample condition for a mismatch) or ('max', fold leaf, fold, condition on its value as acc)
    or None"""
    ex = topleaves(ret, ('exists',)); fo = topleaves(ret, ('lo', 'red'))
    fo = [x for x in fo if not any(x in list(subterms(e)) for e in ex)]
    if ex and not fo:
        m = {e: ('in', P('e%d' % i)) for i, e in enumerate(ex)}
        r = subst(ret, m)
        if leavesb(r) - set(m.values()): return None
        from itertools import product
        for vs in product((TRUE, FALSE), repeat=len(ex)):
            v = subst(r, dict(zip(m.values(), vs)))
            if v not in (TRUE, FALSE): return None
            if v != not_(or_(*vs)): return ('other', ex, r)
        return ('all', [peel(e) for e in ex])
    if fo and not ex:
        if len(fo) > 1: return None
        return ('max', fo[0], Fold(s, fo[0]), subst(ret, {fo[0]: ACC}))
    return None

def parts(ret):
    """a verdict may be several verdicts of which all have to be positive"""
    return list(ret[1:]) if ret is not None and ret[0] == 'and' else [ret]

def leavesb(t): return {x for x in list(subterms(t)) + [t] if x[0] in ('in', 'ev', 'phi', 'lo', 'kap', 'kx', 'sel', 'exists')}

# ---------------------------------------------------------------- not a number
class Nan:
    """what a term comes to when some of its leaves are NaN and the others are any numbers: 'nan', 'num', 'any', True, False, None"""
    def __init__(self, nans): self.nans = nans; self.memo = {}
    def v(self, t):
        r = self.memo.get(t)
        if r is None: r = self.memo[t] = self.v_(t)
        return r
    def v_(self, t):
        o = t[0]
        if t in self.nans: return 'nan'
        if o == 'flt': return 'nan' if t[1] != t[1] else 'num'
        if o == 'int': return 'num'
        if o in ('add', 'mul', 'prod', 'div', 'abs', 'f32', 'neg') or o == 'uf' and t[1] in ('sin', 'cos', 'exp', 'log', 'log10', 'log2', 'floor', 'ceil', 'round', 'sqrt', 'pow', 'fmod', 'fabs'):
            a = [self.v(x) for x in (t[2:] if o == 'uf' else t[1:])]
            if 'nan' in a and not (o == 'uf' and t[1] == 'pow'): return 'nan'
            if o in ('abs', 'f32') or o == 'mul' and isnum(t[1]): return a[-1]
            return 'any'
        if o in ('min', 'max'):
            a, b = self.v(t[1]), self.v(t[2])
            if a == 'nan': return 'nan'              # the comparison is false: the first operand
            if b == 'nan': return a
            return 'num' if a == b == 'num' else 'any'
        if o == 'ite':
            c = self.b(t[1])
            if c is True: return self.v(t[2])
            if c is False: return self.v(t[3])
            a, b = self.v(t[2]), self.v(t[3])
            return a if a == b else 'any'
        return 'num' if o in ('kap', 'kx') else 'any'
    def b(self, t):
        o = t[0]
        if o == 'bool': return t[1]
        if o in ('lt', 'le', 'eq', 'feq'):
            if 'nan' in (self.v(t[1]), self.v(t[2])): return False
            return None
        if o == 'isnan':
            v = self.v(t[1]); return True if v == 'nan' else False if v == 'num' else None
        if o == 'uf' and t[1] in ('isfinite', 'isinf', 'isnormal', 'isgreater', 'isless', 'isgreaterequal', 'islessequal'):
            return False if 'nan' in [self.v(x) for x in t[2:]] else None
        if o == 'uf' and t[1] == 'isunordered': return True if 'nan' in [self.v(x) for x in t[2:]] else None
        if o == 'not':
            v = self.b(t[1]); return None if v is None else not v
        if o == 'and':
            v = [self.b(x) for x in t[1:]]; return False if False in v else None if None in v else True
        if o == 'or':
            v = [self.b(x) for x in t[1:]]; return True if True in v else None if None in v else False
        if o == 'ite':
            c = self.b(t[1])
            if c is True: return self.b(t[2])
            if c is False: return self.b(t[3])
            a, b = self.b(t[2]), self.b(t[3])
            return a if a == b else None
        return None

def matchrun(ctx, q, details=False):
    """summary of a matcher built with V0, V1 and shown the buffer obs (then asked for details)"""
    key = ('match', q, details)
    if key not in ctx._cache:
        r = ctx.rec(q)
        steps = [(ctx.valctor(r), [V0, V1]), (ctx.method(r, 'match', 1), [OBS])]
        if details: steps = [steps[1], (ctx.method(r, 'getFailureDetails', 0), [])]      # whatever was judged before
        ctx._cache[key] = ctx.seq(r, steps)
    return ctx._cache[key]
