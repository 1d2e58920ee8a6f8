"""AudioTestBuilder::process() as a whole: its summary from an arbitrary configuration, and the roles of the
builder's fields, found from what the public setters store."""
from .common import *

RATE, BS, DUR, NIN_, NOUT_ = ('in', P('rate')), ('in', P('bs')), ('in', P('dur')), ('in', P('nin')), ('in', P('nout'))
OBJ = (('P', 'obj'),)
WRITERS = ('hart::WavWriter::writeBuffer', 'hart::plotData')

def builder(ctx): return ctx.rec('hart::AudioTestBuilder')

def setters(ctx):
    rec = builder(ctx); m = lambda n: ctx.method(rec, n, 1)
    return [(m('withSampleRate'), [RATE]), (m('withBlockSize'), [BS]), (m('withDuration'), [DUR]), (m('withInputChannels'), [NIN_]), (m('withOutputChannels'), [NOUT_]), (m('withLabel'), [P('label')])]

def process(ctx, inline=False, rev=False):
    """configured with rate, bs, dur, nin, nout and label, in this order or the reverse; anything else arbitrary"""
    key = ('process', inline, rev)
    if key not in ctx._cache:
        rec = builder(ctx)
        ctx._cache[key] = ctx.seq(rec, setters(ctx)[::-1 if rev else 1] + [(ctx.method(rec, 'process', 0), [])], this=OBJ, opaque=() if inline else WRITERS)
    s = ctx._cache[key]
    if isinstance(s, Exception): raise s
    return s

def checkroles(ctx):
    """which list and which fields of its elements hold what, from what the public check methods push:
    {'level': field, 'skip': field, 'want': field, 'matcher': field, 'lists': {(method, perblock): vector}}"""
    if 'roles' in ctx._cache: return ctx._cache['roles']
    rec = builder(ctx); rows = []
    for f in ctx.methods(rec):
        if f.get('access', 'public') != 'public' or len(f['params']) != 1: continue
        t = ctx.prog.strip(f['params'][0]['t'])
        if t['k'] != 'rec' or ctx.prog.recs.get(t.get('rid')) is None or not ctx.prog.derives(ctx.prog.recs[t['rid']], 'hart::Matcher'): continue
        s = ctx.run(f, rec, [P('m')])
        ps = [e for e in s.log if e.kind == 'push' and e.pc != FALSE]
        rows.append((f, s, ps))
    ctx._cache['roles'] = rows
    return rows

def elvals(s, e):
    """what the fields of a pushed element hold: {field: value}"""
    out = {}
    n = len(e.el)
    for w in s.log:
        if w.kind == 'write' and isinstance(w.loc, tuple) and w.loc[:n] == e.el and len(w.loc) > n: out[w.loc[n]] = w.val
    return out

class Checks:
    """the check machinery of process(): the lists of checks, what their elements' fields mean, and the match calls"""
    def __init__(self, ctx):
        self.s = s = process(ctx); rows = checkroles(ctx)
        self.rows = rows
        if not rows: raise Missing('public check methods')
        self.events = []           # (event, list, index, loop)
        self.bylist = {}
        vecs = set()
        for f, ss, ps in rows:
            for e in ps: vecs |= set(locleaves(e.vec))
        self.vecs = {(OBJ + v[1:]) if v[:1] == ('this',) else v for v in vecs}
        # field roles
        consts = {}                # field -> {method: value}
        for f, ss, ps in rows:
            for e in ps:
                for k, v in elvals(ss, e).items(): consts.setdefault(k, {}).setdefault(f['id'], set()).add(v)
        self.fields = consts
        names = {f['id']: f['n'] for f, ss, ps in rows}
        def role(spec, skip=()):
            """the field whose constant value separates the methods as the specification does, but for a minority
            of methods: (field, {class: value}, methods that store something else)"""
            best = None
            for k, m in consts.items():
                if k in skip or set(m) != set(names) or any(len(v) != 1 or not isconst(next(iter(v))) for v in m.values()): continue
                vals = sorted({next(iter(v)) for v in m.values()}, key=repr)
                if len(vals) != 2: continue
                for a, b in ((vals[0], vals[1]), (vals[1], vals[0])):
                    dev = [fid for fid, v in m.items() if next(iter(v)) != (a if spec(names[fid]) else b)]
                    if best is None or len(dev) < len(best[2]): best = (k, {True: a, False: b}, dev)
            return best if best and len(best[2]) * 3 < len(names) else None
        self.want = role(lambda n: n.endswith('True')); self.level = role(lambda n: n.startswith('assert'), (self.want[0],) if self.want else ())
        if self.level is None or self.want is None:
            raise Missing('fields that hold severity and polarity: %s' % {k: {names[i]: [show(x) for x in v] for i, v in m.items()} for k, m in consts.items()})
        self.matcher = [k for k, m in consts.items() if any(x[0] == 'new' or 'copy' in show(x) or x[0] in ('addr', 'ev') for v in m.values() for x in v)]
        for e in s.log:
            if e.kind == 'icall' and e.n == 'match' and e.pc != FALSE:
                t = e.this
                if t and isinstance(t[0], tuple) and t[0][0] == 'deref' and t[0][1][0] == 'sel' and t[0][1][1][0] == 'in':
                    key = t[0][1][1][1]; v = key[:next((i for i, x in enumerate(key) if x == ('[]',)), 0)]
                    if v in self.vecs: self.events.append((e, v, t[0][1][2][1])); continue
                raise Missing('a match call on something else than a check of the test: %s' % showloc(t))
        if not self.events: raise Missing('match calls in process()')
    def f(self, v, name, k): return ('sel', ('in', v + (('[]',), name)), ('ix', k))
    def mismatch(self, e, v, k):
        w = self.f(v, self.want[0], k); y, n = self.want[1][True], self.want[1][False]
        r = ('ev', e.id, 'match')
        if (y, n) == (TRUE, FALSE): return not_(eq(r, w))
        if (y, n) == (FALSE, TRUE): return eq(r, w)
        return not_(eq(r, eq(w, y)))
    def isassert(self, v, k): return self.levelis(v, k, True)
    def levelis(self, v, k, a):
        w = self.f(v, self.level[0], k); c = self.level[1][True]
        r = w if c == TRUE else not_(w) if c == FALSE else eq(w, c)
        return r if a else not_(r)
    def facts(self, v, k):
        """level has one of its two values"""
        w = self.f(v, self.level[0], k); a, b = self.level[1][True], self.level[1][False]
        w2 = self.f(v, self.want[0], k); a2, b2 = self.want[1][True], self.want[1][False]
        out = []
        if a not in (TRUE, FALSE): out += [or_(eq(w, a), eq(w, b))]
        if a2 not in (TRUE, FALSE): out += [or_(eq(w2, a2), eq(w2, b2))]
        return out
    def skips(self):
        """boolean fields of checks that the test changes while it runs"""
        out = {}
        for L, lp in self.s.loops.items():
            for key in lp.phis:
                for v in self.vecs:
                    if key[:len(v)] == v and len(key) == len(v) + 2: out.setdefault((v, key[-1]), set()).add(L)
        return out
    def abs(self):
        """the fixpoint set up with flags 'fail' (a check failed) and 'afail' (an assert check failed)"""
        from engine.boolabs import BoolAbs
        fr = {v + (('[]',), f): 'fail' for v, f in self.skips()}
        facts = []
        for e, v, k in self.events: facts += self.facts(v, k)
        B = BoolAbs(self.s, fr, facts)
        for e, v, k in self.events:
            L = e.loops[-1] if e.loops else None
            mm = and_(e.pc, self.mismatch(e, v, k))
            B.ghost('fail', L, e.id + .1, mm)
            B.ghost('afail', L, e.id + .1, and_(mm, self.isassert(v, k)))
        return B

def locleaves(l): return locleaves(l[2]) + locleaves(l[3]) if l and l[0] == 'lite' else [l]
def checks(ctx):
    if 'checks' not in ctx._cache:
        try: ctx._cache['checks'] = Checks(ctx)
        except Exception as x: ctx._cache['checks'] = x
    c = ctx._cache['checks']
    if isinstance(c, Exception): raise c
    return c
def evpos(L): return L

class Accum:
    """the buffers that collect the whole input and output signal over the blocks of a test"""
    def __init__(self, ctx, rev=False):
        self.s = s = process(ctx, rev=rev)
        P_ = [e for e in s.log if e.kind == 'icall' and e.q == 'hart::DSP::process' and e.this and e.this[0][0] == 'deref' and e.this[0][1][0] == 'in' and len(e.this) == 1]
        R_ = [e for e in s.log if e.kind == 'icall' and e.q == 'hart::Signal::renderNextBlock']
        self.proc = P_; self.rend = R_
        self.apps = [e for e in s.log if e.kind == 'append' and e.pc != FALSE]
        self.kinds = {}
        for e in self.apps:
            self.kinds.setdefault(e.buf, set()).add(self.classify(e))
    def classify(self, e):
        """whose samples does this append add"""
        ps = self.proc
        if len(ps) != 1: return None
        p = ps[0]
        if e.loops != p.loops: return None
        outs = [j for j, a in enumerate(p.args) if a[0] == 'loc' and j in p.snap and '#s' in p.snap[j]]
        if len(outs) < 2: return None
        i, o = outs[0], outs[1]
        if e.src == ('evout', p.id, o): return 'out'
        if e.src == p.snap[i]['#s']: return 'in'
        if self.rend and e.src == p.snap[o].get('#s'): return 'raw'
        return None
    def isbuf(self, loc): return loc in self.kinds or any(e.kind == 'icall' and any(j in e.snap and '#s' in e.snap[j] and a == ('loc', loc) for j, a in enumerate(e.args)) for e in self.s.log)
    def kind(self, loc):
        k = self.kinds.get(loc)
        return next(iter(k)) if k and len(k) == 1 else None
    def complete(self, e, loc):
        """at event e the buffer holds everything collected over the whole block loop"""
        for j, a in enumerate(e.args):
            if a == ('loc', loc) and j in e.snap:
                v = e.snap[j].get('#s'); n = e.snap[j].get('#nfr')
                L = [x.loops for x in self.apps if x.buf == loc]
                if len(L) != 1 or len(L[0]) != 1: return None
                key = loc + SKEY
                if v == ('lo', L[0][0], key) and n == ('lo', L[0][0], loc + ('#nfr',)): return True
                if L[0][0] in e.loops: return False
                return None
        return None

def accum(ctx, rev=False):
    if ('accum', rev) not in ctx._cache: ctx._cache['accum', rev] = Accum(ctx, rev)
    return ctx._cache['accum', rev]

POS, NTOT = ('in', P('pos#size')), ('in', P('total#size'))
class Clock:
    """the loop that walks the signal block by block: which variable tells the position, and the terms involved with
    the number of frames as a symbol and the position as a symbol"""
    def __init__(self, ctx, rev=False):
        A = accum(ctx, rev); self.s = s = A.s
        if len(A.proc) != 1 or len(A.proc[0].loops) != 1: raise Missing('the one place where the tested effect processes blocks')
        self.p = A.proc[0]; self.L = L = self.p.loops[0]; self.lp = lp = s.loops[L]
        bufs = [j for j, a in enumerate(self.p.args) if a[0] == 'loc' and j in self.p.snap and '#nfr' in self.p.snap[j]]
        if len(bufs) < 2: raise Missing('input and output block of the tested effect')
        self.i, self.o = bufs[:2]
        self.tot = {}
        for e in [lp.cond, self.p.snap[self.i]['#nfr'], self.p.snap[self.o]['#nfr']] + [x for a in lp.phis.values() for x in a] + ([lp.T] if lp.T is not None else []): self.findtot(e)
        self.sub = {t: NTOT for t in self.tot}
        self.cond = self.abs(lp.cond if lp.cond is not None else TRUE); self.bin = self.abs(self.p.snap[self.i]['#nfr']); self.bout = self.abs(self.p.snap[self.o]['#nfr'])
        ts = [self.cond, self.bin, self.bout] + [self.abs(x) for k, a in lp.phis.items() if k[-1:] != ('#nfr',) and k[-1:] != ('[]',) for x in a if isinstance(x, tuple)]
        cs = sorted({x[1] for t in ts for x in list(subterms(t)) + [t] if x[0] == 'int' and 8 < x[1] < 10 ** 7})
        def pick(hi, lo=0, mult=1):
            def f(r, t):
                if cs and r.random() < .5: return max(lo, r.choice(cs) * r.choice([1, 1, mult]) + r.choice([-1, 0, 1, 7]))
                return r.randint(lo, hi)
            return f
        self.special = [(lambda t: t == NTOT, pick(24, 0, 3)), (lambda t: t == BS, pick(8, 1)), (lambda t: t == POS, pick(24)), (lambda t: t == ('in', P('k#size')), lambda r, t: r.randint(0, 8))]
    def findtot(self, t):
        if not isinstance(t, tuple) or not t: return False
        for x in subterms(t):
            if x[0] in ('trunc', 'round', 'idiv', 'ceildiv', 'lo', 'in') or x[0] == 'uf':
                lv = {y for y in subterms(x) if y[0] in ('in', 'phi', 'lo', 'ev', 'kap')}
                if RATE in lv and DUR in lv and lv == {RATE, DUR} and not any(x in subterms(b) for b in self.tot if b != x):
                    for b in [b for b in self.tot if b in subterms(x)]: del self.tot[b]
                    self.tot[x] = 1
    def abs(self, t): return subst(t, self.sub)
    def position(self):
        """(substitution of the loop variable, init of the position, next position) for each way of reading a position"""
        out = []
        L, lp = self.L, self.lp
        for key, (init, nxt) in lp.phis.items():
            if key[-1:] == ('#nfr',) or not isinstance(init, tuple): continue
            ph = ('phi', L, key)
            if not any(ph in subterms(x) for x in (lp.cond, self.p.snap[self.i]['#nfr']) if x is not None): continue
            i2, n2 = self.abs(init), self.abs(nxt)
            if i2[0] in ('bool', 'str'): continue
            out.append(({ph: POS}, i2, lambda s, n2=n2: subst(n2, s), showloc(key)))
            out.append(({ph: sub(NTOT, POS)}, sub(NTOT, i2), lambda s, n2=n2: sub(NTOT, subst(n2, s)), 'total minus ' + showloc(key)))
        k = ('kap', L)
        out.append(({k: ('in', P('k#size'))}, ZERO, lambda s: add(mul(('in', P('k#size')), BS), BS), 'counter times block size'))
        return out

def clock(ctx, rev=False):
    key = ('clock', rev)
    if key not in ctx._cache:
        try: ctx._cache[key] = Clock(ctx, rev)
        except Exception as x: ctx._cache[key] = x
    c = ctx._cache[key]
    if isinstance(c, Exception): raise c
    return c
