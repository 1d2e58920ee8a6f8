"""Two halves. The matchers: match() followed by getFailureDetails() is summarised as one sequence; under the assumption that
match() failed, the channel and frame reported, and every number in the description, are those of one and the same
sample - the one of the iteration in which the search was left, or in which the running maximum last changed. process(): the
report texts are found as terms in its summary; for every combination of severity, polarity and presence of a label, the text
is flattened to its literals and numbers and each of them is compared with what it has to say: words for severity and
polarity, label, condition of the very matcher that answered, channel, frame, time counted from the start of the signal,
sample of the judged buffer at that place, decibels of its absolute value, the matcher's description."""
import re
from .common import *
from .scan import *
from .proc import *
from .c17 import SPECIAL, kaps

def check(ctx):
    for q in ('hart::EqualsTo', 'hart::PeaksBelow', 'hart::PeaksAt'): ctx.guard('details', q, details, ctx, q)
    ctx.guard('report', 'process()', reports, ctx)

# ---------------------------------------------------------------- text
def flatten(t, out=None):
    """items of a text: ('str', s) | ('num', term) | ('text', term) | ('man', term) | ('?', term)"""
    if out is None: out = []
    o = t[0]
    if o == 'cat':
        for x in t[1:]: flatten(x, out)
    elif o == 'str': out.append(('str', t[1]))
    elif o == 'fmt':
        k = t[2][1] if isinstance(t[2], tuple) else t[2]
        if t[1][0] == 'fn' and str(t[1][-1]).endswith('endl'): out.append(('str', '\n'))
        elif t[1][0] == 'fn' or t[1][0] == 'uf' and str(t[1][1]).startswith('setprecision'): out.append(('man', t[1]))
        elif k in ('int', 'float', 'bool', 'char'): out.append(('num', t[1]))
        else: out.append(('text', t[1]))
    elif o == 'ev' and t[2] == 'text': out.append(('text', t))
    elif o in ('flt', 'int', 'in', 'add', 'mul', 'div', 'prod', 'f32', 'min', 'max', 'abs', 'sel', 'uf', 'lo', 'kap'): out.append(('num', t) if not (o == 'uf' and str(t[1]).startswith('setprecision')) else ('man', t))
    elif o == 'ite':
        a, b = flatten(t[2]), flatten(t[3])
        if all(x[0] == 'num' for x in a + b) and len(a) == len(b) == 1: out.append(('num', t))
        else: out.append(('?', t))
    else: out.append(('?', t))
    return out

def numbers(items):
    """[(literal before, term, literal after)]"""
    its = [i for i in items if i[0] != 'man']; out = []
    for i, x in enumerate(its):
        if x[0] != 'num': continue
        b = ''; j = i - 1
        while j >= 0 and its[j][0] == 'str': b = its[j][1] + b; j -= 1
        a = ''; j = i + 1
        while j < len(its) and its[j][0] == 'str': a += its[j][1]; j += 1
        out.append((b, x[1], a))
    return out
def literals(items): return ''.join(x[1] if x[0] == 'str' else '\0' for x in items if x[0] != 'man')

# ---------------------------------------------------------------- the matchers
def details(ctx, q):
    s = matchrun(ctx, q, True); rec = ctx.rec(q); f = ctx.method(rec, 'getFailureDetails', 0)
    m = ctx.seq(rec, [(ctx.method(rec, 'match', 1), [OBS])]); v = verdict(m, m.ret)
    if v is None or v[0] == 'other' or v[0] == 'all' and len(v[1]) > 1: ctx.unk('details', f, '%s: form of the verdict' % q); return
    D = s.ret[1] if s.ret and s.ret[0] in ('obj', 'loc') else None
    if D is None: ctx.unk('details', f, '%s: what is returned' % q); return
    failed = {m.ret: FALSE}
    if m.ret[0] == 'not': failed[m.ret[1]] = TRUE
    else: failed[not_(m.ret)] = TRUE
    got = {k: subst(s.read(D + (k,)), failed) for k in ('channel', 'frame', 'description')}
    if v[0] == 'all':
        loops, body = v[1][0]
        ix = cases_index(ctx, f, m, body, loops, 'details', q)
        if ix is None: return
        sels = {x[1]: (x[2], X if x[1] == SOBS else R_) for x in subterms(body) if x[0] == 'sel'}
        gen = Gen(m, loops, None, {('sel', a, i): y for a, (i, y) in sels.items()})
        want = body
    else:
        leaf, fold, h = v[1:]
        loops = fold.loops(); st = fold.levels[-1][2]
        if any(l[2] is not None for l in fold.levels[:-1]): ctx.unk('details', f, '%s: maximum over maxima' % q); return
        ix = cases_index(ctx, f, m, st, loops, 'details', q)
        if ix is None: return
        gen = Gen(m, loops, leaf, {('sel', SOBS, ix): X})
    for fld, want in (('channel', ix[1]), ('frame', ix[2])):
        g = gen(got[fld])
        lab = '%s reports the %s of the sample that made it fail' % (q, fld)
        if g is None: ctx.unk('details', f, '%s: %s' % (lab, clip(show(got[fld]), 200))); continue
        r = compare(strip(g), want, None, n=300, seed=ctx.seed, special=kaps(loops))
        ctx.must('details', f, True if r == 'eq' else False if r[0] == 'ne' else None, lab + ('' if r == 'eq' else ': %s, should be %s' % (clip(show(g), 150), show(want))))
    its = flatten(got['description'])
    if any(x[0] == '?' for x in its): ctx.unk('details', f, '%s: description %s' % (q, clip(show([x[1] for x in its if x[0] == '?'][0]), 200))); return
    rtd = dbconv(ctx, X, 'ratioToDecibels') 
    ns = numbers(its); sp = SPECIAL + kaps(loops)
    lin = None; nlin = 0; ndb = 0
    for b, t, a in ns:
        g = gen(t)
        if g is None: ctx.unk('details', f, '%s: number after "%s": %s' % (q, b.strip(), clip(show(t), 200))); continue
        g = strip(g)
        isdb = a.lstrip().lower().startswith('db')
        if q == 'hart::EqualsTo':
            w, name = (T.tabs(sub(X, R_)), 'the difference') if 'differ' in b.lower() else (R_, 'the expected sample') if 'expect' in b.lower() else (X, 'the observed sample') if re.search('observ|actual', b.lower()) else (lin, 'the number before it') if isdb and lin is not None else (None, None)
        else: w, name = X, 'the sample'
        if w is None: ctx.unk('details', f, '%s: meaning of the number after "%s"' % (q, b.strip())); continue
        if isdb: want = subst(rtd, {X: T.tabs(w)}); ndb += 1
        else: want = w; lin = w; nlin += 1
        if not isdb and q != 'hart::EqualsTo': want = T.tabs(w) if compare(g, X, None, n=50, special=sp) != 'eq' else w
        r = compare(g, want, None, n=500, seed=ctx.seed, special=sp)
        ctx.must('details', f, True if r == 'eq' else False if r[0] == 'ne' else None, '%s: the number after "%s" is %s%s%s' % (q, clip(b.strip(), 40), 'decibels of the absolute value of ' if isdb else '', name, '' if r == 'eq' else ', but is %s' % clip(show(g), 200)))
    ctx.must('details', f, True if ns else False, '%s: the description has the value that failed' % q)

def strip(t): return t

class Gen:
    """a value kept from the search, for an arbitrary sample: what it is when the sample that decides is (x, at the loops'
    counters); None when it is not kept in step with the verdict"""
    def __init__(self, s, loops, leaf, syms):
        self.s = s; self.loops = loops; self.leaf = leaf; self.syms = syms
        self.maxraw = self.raw(leaf) if leaf is not None else None
    def raw(self, leaf):
        """(innermost loop, update) of a location carried through the nest"""
        L, key = leaf[1], leaf[2]; s = self.s; seen = 0
        while True:
            lp = s.loops.get(L)
            if lp is None or key not in lp.phis: return None
            i, n = lp.phis[key]
            if n[0] == 'lo' and n[2] == key and n[1] != L:
                j, m = s.loops[n[1]].phis.get(key, (None, None))
                if j != ('phi', L, key): return None
                L = n[1]; continue
            return L, n
    def __call__(self, t):
        m = dict(self.syms)
        for L in self.loops: m[('kx', L)] = ('kap', L)
        # readings at the iteration left
        t = subst(t, {('kx', L): ('kap', L) for L in self.loops})
        leaves = [x for x in topleaves(t, ('lo', 'red')) if not any(x in list(subterms(a)) for a in [y for y in self.syms])]
        sub_ = {}
        inarr = {y[1] for y in subterms(t) if y[0] == 'sel'}
        for x in leaves:
            if x in inarr: continue
            if self.leaf is None: return None
            if x == self.leaf:
                # the largest value: some sample's value
                L, n = self.raw(x) or (None, None)
                if n is None: return None
                w = self.taken(n, ('phi', L, x[2]))
                if w is None: return None
                sub_[x] = w[1]; continue
            if x[0] != 'lo': return None
            r = self.raw(x); mr = self.maxraw
            if r is None or mr is None or r[0] != mr[0]: return None
            w = self.taken(r[1], ('phi', r[0], x[2])) or self.twice(x, r); mw = self.taken(mr[1], ('phi', mr[0], self.leaf[2]))
            if w is None or mw is None: return None
            if w[0] != mw[0]:
                mp = ('phi', mr[0], self.leaf[2]); z = {mp: ACC}; z.update(self.syms)
                r2 = compare(subst(w[0], z), subst(mw[0], z), None, n=400, want='b', special=SPECIAL)
                if r2 != 'eq':
                    self.why = 'changes when %s' % show(w[0])
                    return ('uf', 'out of step', num(1)) if r2[0] == 'ne' else None
            sub_[x] = w[1]
        t = subst(t, sub_); t = subst(t, self.syms)
        # other places of the same buffers
        arrs = {a[1]: a[2] for a in self.syms}
        oth = [y for y in subterms(t) if y[0] == 'sel' and y[1] in arrs]
        for y in oth:
            if all(pure(z) for z in y[2][1:]) and any(compare(a, b, None, n=100, special=kaps(self.loops)) != 'eq' for a, b in zip(y[2][1:], arrs[y[1]][1:])): t = subst(t, {y: ('in', P('elsewhere'))})
        if any(y[0] in ('lo', 'red', 'phi', 'exists', 'kx') for y in subterms(t)): return None
        return t
    def twice(self, x, r):
        """an update that looks at the value kept so far: what two updates in a row make of it, the first in the previous turn of the outer loop"""
        L, n = r; phi = ('phi', L, x[2])
        ch = [(c, v) for c, v in sem.cases(n) if v != phi]
        if len({v for c, v in ch}) != 1: return None
        V = ch[0][1]; init = self.s.loops[x[1]].phis[x[2]][0]
        if not pure(init) or mentions(V, lambda y: y[0] in ('phi', 'lo') and y != phi): return None
        o = ('kap', self.loops[0]); m = {('kap', l): ('in', P('earlier%d#size' % l)) for l in self.loops[1:]}
        m[o] = sub(o, ONE)
        first = ite(lt(ZERO, o), subst(subst(V, {phi: init}), m), init)
        return or_(*[c for c, v in ch]), subst(V, {phi: first})
    def taken(self, n, phi):
        """(condition, value) of an update n that keeps or replaces"""
        if n[0] == 'max' and phi in n[1:]:
            v = [x for x in n[1:] if x != phi]
            return (lt(phi, v[0]), v[0]) if len(v) == 1 else None
        if n[0] == 'ite':
            if n[3] == phi and not mentions(n[2], lambda x: x == phi): return n[1], n[2]
            if n[2] == phi and not mentions(n[3], lambda x: x == phi): return not_(n[1]), n[3]
            # nested: collect
            cs = [(c, x) for c, x in sem.cases(n)]
            ch = [(c, x) for c, x in cs if x != phi]
            if ch and len({x for c, x in ch}) == 1 and not mentions(ch[0][1], lambda x: x == phi): return or_(*[c for c, x in ch]), ch[0][1]
        return None

# ---------------------------------------------------------------- reports of process()
WORDS = {(True, True): 'assertTrue', (True, False): 'assertFalse', (False, True): 'expectTrue', (False, False): 'expectFalse'}

def reports(ctx):
    c = checks(ctx); s = c.s
    byloop = {}
    for e, v, k in c.events: byloop.setdefault(e.loops, []).append((e, v, k))
    n = 0
    for loops, evs in byloop.items():
        if len(evs) != 1: ctx.unk('report', evs[0][0], 'several match calls in one loop'); continue
        e, v, k = evs[0]
        reps = {x.id for x in s.log if x.kind == 'icall' and x.n == 'represent' and x.loops == loops and x.this == e.this}
        texts = [w for w in s.log if w.kind == 'write' and w.loops == loops and isinstance(w.val, tuple) and any(y[0] == 'ev' and y[2] == 'text' for y in subterms(w.val)) and w.pc != FALSE]
        lab0 = 'block by block' if len(loops) > 1 else 'whole signal'
        if not texts:
            anyt = [w for w in s.log if w.kind == 'write' and w.loops == loops and isinstance(w.val, tuple) and w.val[0] == 'cat']
            (ctx.bad if anyt and all(flat(w.val) for w in anyt) else ctx.unk)('report', e, '%s: no report names the condition' % lab0); continue
        for A in (True, False):
            for W in (True, False):
                m = {c.f(v, c.level[0], k): c.level[1][A], c.f(v, c.want[0], k): c.want[1][W], ('ev', e.id, 'match'): num(not W)}
                for empty in (True, False):
                    m2 = dict(m); m2[('empty', ('in', P('label')))] = num(empty)
                    mine = []
                    for w in texts:
                        pc = subst(w.pc, m2)
                        if pc == FALSE or sem.implies(pc, FALSE): continue
                        mine.append((w, subst(w.val, m2)))
                    lab = '%s, %s%s' % (lab0, WORDS[A, W], '' if empty else ', labelled')
                    if not mine: ctx.unk('report', e, '%s: no report' % lab); continue
                    seen = set()
                    for w, val in mine:
                        if val in seen: continue
                        seen.add(val); n += 1
                        for cond, text in alternatives(val):
                            if cond != TRUE:
                                if pure(cond): ok = possible(ctx, and_(cond, subst(w.pc, m2)) if pure(subst(w.pc, m2)) else cond, () if empty else (not_(('empty', ('in', P('label')))), lt(ZERO, ('uf', 'strlen', ('in', P('label'))))))
                                else: ok = reachable(ctx, c, s, w, cond, m2)
                                if ok is False: continue
                                if ok is None: ctx.unk('report', w, '%s: part of the text depends on %s' % (lab, clip(show(cond), 200))); continue
                                lab2 = '%s, when %s' % (lab, clip(show(cond), 80))
                            else: lab2 = lab
                            ctx.guard('report', w, report, ctx, s, e, v, k, w, flatten(text), lab2, A, W, empty, reps, len(loops) > 1)
    if not n: ctx.unk('report', 'process()', 'no report found')
    # the exception for a failed assertion carries the text
    kept = {w.loc for w in s.log if w.kind == 'write' and isinstance(w.val, tuple) and any(y[0] == 'ev' and y[2] == 'text' for y in subterms(w.val)) and w.loops}
    for t in s.log:
        if t.kind == 'throw' and t.type.endswith('TestAssertException') and t.pc != FALSE:
            bad = [x for c_, x in sem.cases(t.msg) if not (x[0] in ('lo', 'phi', 'in') and x[-1] in kept or any(y[0] == 'ev' and y[2] == 'text' for y in subterms(x)))]
            ctx.must('report', t, True if not bad else False if all(x[0] == 'str' for x in bad) else None, 'the exception raised for a failed assertion carries its report%s' % ('' if not bad else ' (%s)' % clip(show(bad[0]), 100)))

def alternatives(t, n=8):
    """the texts a gated text can be: [(condition, text without gates between texts)]"""
    if t[0] == 'cat':
        out = [(TRUE, ())]
        for x in t[1:]:
            out = [(and_(c, d), a + (y,)) for c, a in out for d, y in alternatives(x)]
            if len(out) > n: return [(TRUE, t)]
        return [(c, ('cat',) + a) for c, a in out if c != FALSE]
    if t[0] == 'ite' and flatten(t)[0][0] == '?': return [(and_(t[1], c), x) for c, x in alternatives(t[2])] + [(and_(not_(t[1]), c), x) for c, x in alternatives(t[3])]
    return [(TRUE, t)]

def reachable(ctx, c, s, w, cond, m2):
    """can the write happen with cond true? decided on the boolean fixpoint of process()"""
    B = c.abs()
    B.oblige('r', w.loops[-1], w.id - .1, not_(and_(subst(w.pc, m2), cond)))
    B.solve()
    return bool(B.bad)

def flat(t): return all(x[0] != '?' for x in flatten(t))

def report(ctx, s, e, v, k, w, its, lab, A, W, empty, reps, perblock):
    q = [x for x in its if x[0] == '?']
    if q: ctx.unk('report', w, '%s: part of the text: %s' % (lab, clip(show(q[0][1]), 200))); return
    lit = literals(its); low = lit
    words = [x for x in WORDS.values() if x in lit]
    ctx.must('report', w, words == [WORDS[A, W]], '%s: names severity and polarity (%s)' % (lab, words))
    texts = [x[1] for x in its if x[0] == 'text']
    if not empty: ctx.must('report', w, ('in', P('label')) in texts, '%s: names the label' % lab)
    cond = [t for t in texts if t[0] == 'ev' and t[2] == 'text']
    ctx.must('report', w, True if any(t[1] in reps for t in cond) else False, '%s: names the condition of the check that failed' % lab)
    if not W: return
    ds = {}
    for x in subterms(tuple(y[1] for y in its if y[0] in ('num', 'text'))):
        if x[0] == 'in' and isinstance(x[1], tuple) and x[1] and isinstance(x[1][0], tuple) and x[1][0][0] == 'deref' and x[1][0][1][0] == 'ev' and x[1][0][1][2] == 'getFailureDetails': ds.setdefault(x[1][0][1][1], x[1][0])
    if not ds: ctx.bad('report', w, '%s: nothing of the matcher\'s failure details' % lab); return
    if len(ds) > 1: 
        if len({[y for y in s.log if y.id == i][0].this for i in ds}) > 1: ctx.unk('report', w, '%s: details of several calls' % lab); return
    i, d = next(iter(ds.items()))
    g = [y for y in s.log if y.id == i][0]
    ctx.must('report', g, g.this == e.this and g.id > e.id and g.loops == e.loops, '%s: details come from the matcher that answered, after it did' % lab)
    others = [y for y in s.log if y.kind == 'icall' and y.n in ('match', 'reset') and y.this == e.this and e.id < y.id < g.id and y.pc != FALSE]
    ctx.must('report', g, not others, '%s: nothing else is asked of the matcher in between' % lab)
    merge = {('in', (dd, f)): ('in', (d, f)) for dd in ds.values() for f in ('channel', 'frame', 'description')}
    CH, FR = ('in', (d, 'channel')), ('in', (d, 'frame'))
    arr = (e.snap.get(0) or {}).get('#s')
    ns = [(b, subst(t, merge), a) for b, t, a in numbers(its)]
    line = lambda b: b.rsplit('\n', 1)[-1].lower()
    pick = lambda *ks: [(b, t, a) for b, t, a in ns if any(k in line(b) for k in ks)]
    sp = [(lambda t: t in (CH, FR), lambda r, t: r.choice([0, 1, 2, 3, 17, 1000])), (lambda t: t == RATE, lambda r, t: r.choice([8000.0, 44100.0, 48000.0, 22.5])), (lambda t: t in (NTOT, POS), lambda r, t: r.choice([0, 1, 64, 1000, 100000])), (lambda t: t == BS, lambda r, t: r.choice([1, 64, 1000]))]
    for what, ks, want in (('channel', ('channel',), CH), ('frame', ('frame',), FR)):
        p = pick(*ks)
        if not p: ctx.bad('report', w, '%s: the %s is missing' % (lab, what)); continue
        ctx.must('report', w, True if p[0][1] == want else None if not simple(p[0][1]) else compare(p[0][1], want, None, n=200, special=sp) == 'eq', '%s: the %s printed is the matcher\'s (%s)' % (lab, what, clip(show(p[0][1]), 80)))
    p = pick('time')
    if not p: ctx.bad('report', w, '%s: the timestamp is missing' % lab)
    else:
        t = p[0][1]
        if perblock:
            K = clock(ctx); rs = []
            for m, i0, nx, lb in K.position():
                if i0 != ZERO and compare(i0, ZERO, None, n=50) != 'eq': continue
                t2 = subst(K.abs(t), m)
                rs.append(compare(t2, T.fdiv(add(POS, FR), RATE), None, n=300, seed=ctx.seed, special=sp))
            h = True if 'eq' in rs else None if any(r[0] == '?' for r in rs) or not rs else False
        else:
            r = compare(t, T.fdiv(FR, RATE), None, n=300, seed=ctx.seed, special=sp); h = True if r == 'eq' else False if r[0] == 'ne' else None
            if r[0] == '?' and any(y[0] == 'lo' for y in subterms(t)): 
                # a value left by the block loop: the position after the last block is the length of the signal, not zero
                r = compare(subst(t, {y: ('in', P('after%d' % j)) for j, y in enumerate(sorted({y for y in subterms(t) if y[0] == 'lo'}, key=repr))}), T.fdiv(FR, RATE), None, n=300, special=sp); h = False if r[0] == 'ne' else None
        ctx.must('report', w, h, '%s: the timestamp counts from the start of the signal (%s)' % (lab, clip(show(t), 120)))
    p = pick('value')
    want = ('sel', arr, ('ix', CH, FR)) if arr is not None else None
    if not p: ctx.bad('report', w, '%s: the sample value is missing' % lab)
    elif want is None: ctx.unk('report', w, '%s: the judged buffer' % lab)
    else:
        t = p[0][1]
        if t[0] == 'f32': t = t[1]
        ctx.must('report', w, True if t == want else False if t[0] == 'sel' and (t[1] == arr and simple(('ix',) + tuple(t[2][1:])) or t[2] == want[2] and t[1][0] in ('evout', 'in', 'lo')) or t[0] in ('abs', 'mul') or isnum(t) else None, '%s: the sample value is that of the judged audio at this place (%s)' % (lab, clip(show(t), 120)))
        rtd = dbconv(ctx, X, 'ratioToDecibels')
        for b, t, a in ns:
            if not a.lstrip().lower().startswith('db'): continue
            t2 = subst(t, {want: X})
            t2 = subst(t2, {y: ('in', P('elsewhere')) for y in subterms(t2) if y[0] == 'sel' and y[1] == arr and (y[2][1] != CH and simple(y[2][1]) or y[2][2] != FR and simple(y[2][2]))})
            if not simple(t2): ctx.unk('report', w, '%s: decibel reading %s' % (lab, clip(show(t2), 120))); continue
            r = compare(t2, subst(rtd, {X: T.tabs(X)}), None, n=400, seed=ctx.seed, special=SPECIAL)
            ctx.must('report', w, True if r == 'eq' else False if r[0] == 'ne' else None, '%s: the decibel reading is that of the absolute sample (%s)' % (lab, clip(show(t2), 120)))
    ctx.must('report', w, ('in', (d, 'description')) in [subst(t, merge) for t in texts], '%s: has the matcher\'s description' % lab)

def simple(t): return not any(x[0] in ('phi', 'lo', 'undef', 'evout', 'upd', 'exists', 'kx', 'red') for x in list(subterms(t)) + [t])
