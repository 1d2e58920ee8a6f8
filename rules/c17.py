"""Summaries of the stock matchers' match(), built from arbitrary settings: the verdict is a quantification over the samples of
the judged buffer (or a condition on a running maximum over them). The iterations' closed forms show that every sample of
every channel is looked at; what an iteration does with a sample is compared with the stated criterion, at and around the
limits. The equality matcher's reference is rendered once per call, before the loops, with its chain, into a buffer with as
many channels and frames as the judged one, and compared sample by sample at the same place. A matcher that judges a
maximum over the whole signal says that it cannot work block by block."""
from .common import *
from .scan import *

GRID = [0.0, 0.5, -0.5, 1.0, -1.0, 1.5, -1.5, 0.25, 2.0, -2.0]
SPECIAL = [(lambda t: t in (X, R_, ACC), lambda r, t: r.choice(GRID) if r.random() < .7 else r.uniform(-3, 3)),
           (lambda t: t == V1, lambda r, t: r.choice([0.0, 0.25, 0.5, 1.0, 1e-3, 1e-5])), (lambda t: t == V0, lambda r, t: r.choice([0.0, 0.0, 0.0, 6.0, -6.0, -20.0, -60.0, -130.0, r.uniform(-100, 20)]))]

def check(ctx):
    for q, spec in (('hart::EqualsTo', equalsto), ('hart::PeaksBelow', peaksbelow), ('hart::PeaksAt', peaksat)):
        ctx.guard('criterion', q, one, ctx, q, spec)
    ctx.guard('reference', 'hart::EqualsTo', reference, ctx)

def equalsto(conv): return ('all', lambda x, r: le(T.tabs(sub(x, r)), V1), lambda x, r: T.tabs(sub(x, r)), lambda m: le(m, V1))
def peaksbelow(conv): return ('all', lambda x, r: le(T.tabs(x), add(conv, V1)), lambda x, r: T.tabs(x), lambda m: le(m, add(conv, V1)))
def peaksat(conv): return ('max', None, lambda x, r: T.tabs(x), lambda m: le(T.tabs(sub(m, conv)), V1))

def one(ctx, q, spec):
    s = matchrun(ctx, q); f = ctx.method(ctx.rec(q), 'match', 1)
    kind, each, value, onmax = spec(dbconv(ctx, V0))
    if kind == 'max':
        # leaving a loop at a sample at or below the target, which need not be the largest
        for L, lp in s.loops.items():
            if lp.exitcond == FALSE: continue
            ix = {x[2] for x in subterms(lp.exitcond) if x[0] == 'sel' and x[1] == SOBS}
            if len(ix) != 1: continue
            ex = generic(lp.exitcond, {SOBS: (ix.pop(), X)})
            for _ in range(3):      # at the first sample
                ex = subst(ex, {x: s.loops[x[1]].phis[x[2]][0] for x in subterms(ex) if x[0] == 'phi' and x[2] in s.loops[x[1]].phis})
            if not pure(ex) or any(x[0] in ('sel', 'kap') for x in subterms(ex)): continue
            if possible(ctx, and_(ex, le(T.tabs(X), add(dbconv(ctx, V0), V1)), le(ZERO, V1)), (), SPECIAL, 3000): ctx.bad('criterion', f, '%s: the search for the peak is left when %s, which need not be the peak' % (q, clip(show(ex), 200))); return
    v = verdict(s, s.ret)
    if v is None and len(parts(s.ret)) > 1:
        # parts that no number fails (what is not a number is judged elsewhere)
        ps = []
        for p in parts(s.ret):
            u = verdict(s, p)
            if u is not None and u[0] == 'all' and all(compare(b, FALSE, None, n=300, seed=ctx.seed, want='b', special=SPECIAL + kaps(ls)) == 'eq' for ls, b in u[1]): continue
            ps.append(u)
        if len(ps) == 1: v = ps[0]
    if v is None:
        if s.ret in (TRUE, FALSE): ctx.bad('criterion', f, '%s always answers %s' % (q, show(s.ret)))
        elif pure(s.ret): ctx.bad('criterion', f, '%s judges %s only' % (q, clip(show(s.ret))))
        else: ctx.unk('criterion', f, '%s: form of the verdict: %s' % (q, clip(show(s.ret))))
        return
    if v[0] == 'other':
        ctx.bad('criterion', f, '%s: the verdict is %s where e.. say whether some sample satisfies %s' % (q, show(v[2]), ', '.join(clip(show(x), 120) for x in v[1]))); return
    if v[0] == 'all':
        if kind == 'max': ctx.unk('criterion', f, '%s: verdict from single samples' % q); return
        if len(v[1]) > 1: ctx.unk('criterion', f, '%s: several passes over the samples' % q); return
        loops, body = v[1][0]
        sample(ctx, q, f, s, loops, body, lambda g: ctx.same('criterion', f, not_(g), each(X, R_), None, '%s: a sample passes exactly when it satisfies the criterion' % q, special=SPECIAL + kaps(loops), wantk='b', n=1500), True)
    else:
        leaf, fold, h = v[1:]
        inner = fold.levels[-1]
        for lp in fold.loops():
            if s.loops[lp].exitcond != FALSE: ctx.unk('criterion', f, '%s: a loop is left early' % q); return
        def stepis(g):
            if inner[2] is None: ctx.unk('criterion', f, 'innermost loop'); return
            val = value(X, R_)
            ctx.same('criterion', f, g, ite(lt(ACC, val), val, ACC), None, '%s: the largest value so far is kept' % q, special=SPECIAL + kaps(fold.loops()), n=1500, guard=le(ZERO, ACC))
        for L, init, st in fold.levels[:-1]:
            if st is not None: ctx.same('criterion', f, st, ite(lt(ACC, X), X, ACC), None, '%s: the largest value over the inner loop is kept' % q, special=SPECIAL, n=1500, guard=and_(le(ZERO, ACC), le(ZERO, X)))
        for i, (L, init, st) in enumerate(fold.levels):
            if init[0] == 'phi' and i: continue
            if init[0] in ('flt', 'int'): ctx.must('criterion', f, True if init[1] == 0 else (False if init[1] > 0 else True), '%s: the search for the largest value starts at %s' % (q, show(init)))
            else: sample0(ctx, q, f, init, value)
        sample(ctx, q, f, s, fold.loops(), inner[2], stepis, False)
        ctx.same('criterion', f, h, onmax(ACC), None, '%s: the verdict on the largest value' % q, special=SPECIAL, wantk='b', n=1500, guard=le(ZERO, ACC))
        pb = ctx.method(ctx.rec(q), 'canOperatePerBlock', 0); r = ctx.run(pb, ctx.rec(q), []).ret
        if kind == 'max': ctx.must('criterion', pb, True if r == FALSE else False if r == TRUE else None, '%s needs the whole signal' % q)

def sample0(ctx, q, f, init, value):
    """a search that starts from a sample of the buffer"""
    ixs = [x for x in subterms(init) if x[0] == 'sel' and x[1] == SOBS]
    ctx.unk('criterion', f, '%s: the search starts at %s' % (q, clip(show(init), 100)))

def kaps(loops): return [(lambda t: t[0] == 'kap' and t[1] in loops, lambda r, t: r.choice([0, 1, 2, 3, 17, 1000])), (lambda t: t in (NC, NF), lambda r, t: r.choice([1, 2, 8, 64, 5000]))]

def sample(ctx, q, f, s, loops, body, then, exits):
    ix = cases_index(ctx, f, s, body, loops, 'criterion', q)
    if ix is None: return
    cov = coverage(ctx, 'criterion', f, s, loops, ix, '%s looks at every frame of every channel' % q)
    if cov is not True: return
    m = {SOBS: (ix, X)}
    other = [x for x in subterms(body) if x[0] == 'sel' and x[1] != SOBS]
    if q == 'hart::EqualsTo':
        if len({x[1] for x in other}) != 1 or len({x[2] for x in other}) != 1: ctx.unk('criterion', f, '%s: what the samples are compared with' % q); return
        o = other[0]
        bad = [i for i, (a, b) in enumerate(zip(o[2][1:], ix[1:])) if compare(a, b, None, n=200, seed=ctx.seed, special=kaps(loops)) != 'eq']
        if bad:
            if all(pure(x) for x in o[2][1:]): ctx.bad('criterion', f, '%s: sample %s is compared with sample %s of the reference' % (q, show(ix), show(o[2])))
            else: ctx.unk('criterion', f, '%s: sample %s is compared with %s' % (q, show(ix), show(o[2])))
            return
        m[o[1]] = (o[2], R_)
        ctx._cache['refarray'] = o[1]
    elif other: ctx.unk('criterion', f, '%s: reads other buffers' % q); return
    g = generic(body, m)
    # early exits other than on a mismatch
    if exits:
        for i, L in enumerate(loops):
            lp = s.loops[L]; inner = body if i == len(loops) - 1 else None
            if lp.exitcond == FALSE: continue
            if i < len(loops) - 1:
                ls, b = peel(lp.exitcond)
                if ls == loops[i + 1:] and sem.implies(b, body): continue
            elif sem.implies(lp.exitcond, body): continue
            ex = generic(lp.exitcond, m)
            p = possible(ctx, and_(ex, not_(g)))
            (ctx.bad if p else ctx.unk)('criterion', f, '%s: the search ends when %s' % (q, clip(show(ex), 200))); return
    then(g)

def reference(ctx):
    q = 'hart::EqualsTo'; rec = ctx.rec(q); f = ctx.method(rec, 'match', 1)
    s0 = matchrun(ctx, q)
    for e in s0.log:
        if e.kind == 'icall' and e.q == 'hart::Signal::renderNextBlock' and e.pc != FALSE:
            t = e.this[0] if e.this and len(e.this) == 1 else None
            o = [x for x in s0.log if t and t[0] == 'deref' and t[1][0] == 'ev' and x.id == t[1][1]]
            ctx.must('reference', e, True if o and o[0].n == 'copy' and o[0].this == V0[1] or e.this == V0[1] else None, 'the reference is (a copy of) the given signal')
    s = ctx.run(f, rec, [OBS])
    evs = [e for e in s.log if e.kind == 'icall' and e.q == 'hart::Signal::renderNextBlock' and e.pc != FALSE]
    sig = {e.this for e in evs}
    if len(sig) != 1: ctx.unk('reference', f, 'reference signal'); return
    e = once(ctx, 'reference', f, s, 'hart::Signal::renderNextBlock', sig.pop(), 'the reference is rendered once per judged buffer')
    if e is None: return
    b = e.args[0]
    if b[0] != 'loc': ctx.unk('reference', e, 'buffer of the reference'); return
    sn = e.snap.get(0, {})
    for fld, want, what in (('#nfr', NF, 'frames'), ('#nch', NC, 'channels')):
        t = sn.get(fld) or s.read(b[1] + (fld,))
        ctx.same('reference', e, t, want, None, 'the reference is rendered with as many %s as are judged' % what, special=[(lambda t: t in (NC, NF), lambda r, t: r.choice([0, 1, 2, 3, 64, 5000]))])
    ctx.must('reference', e, True if b[1] != OBS else False, 'the reference has a buffer of its own')
    # what is compared is the reference with its chain
    V = chainvec(ctx)
    if V is None: ctx.unk('reference', e, 'chain of the reference'); return
    arrs = {x[1] for x in subterms(s.ret) if x[0] == 'sel' and x[1] != SOBS and x[1][-1:] and any(y == b[1] + SKEY for y in x[1]) or x[0] == 'sel' and x[1][0] == 'evout'} if s.ret else set()
    c = eachonce(ctx, 'reference', f, s, 'hart::DSP::process', e.this + V, 'the reference passes through its whole chain')
    if c is None: return
    if len(arrs) != 1: ctx.unk('reference', c, 'the samples compared'); return
    arr = arrs.pop()
    ctx.must('reference', c, True if arr == ('lo', c.loops[0], b[1] + SKEY) else False if arr == ('evout', e.id, 0) else None, 'the samples compared are those that come out of the chain')

def chainvec(ctx):
    from . import c26
    class Quiet:
        def __init__(self, c): self.__dict__['c'] = c
        def __getattr__(self, n): return (lambda *a, **k: None) if n in ('ok', 'bad', 'unk', 'must', 'same', 'gsame') else getattr(self.c, n)
    return c26.chain(Quiet(ctx), ctx.rec('hart::Signal'))
