"""In the summary of process() the block loop is read off as an inductive argument: the loop variable that tells the position
starts at frame 0, the loop goes on exactly while the position is before the requested number of frames (duration times
rate, rounded), each block is as long as the block size or as what is left, for input and output alike and with the
configured channel counts, and the position moves on by exactly that. In every iteration, unconditionally, there is one
render of the input signal into the input block, one pass of that block through the tested effect, and one append of each
block to the recording of its kind, in full and at its end. Tests without frames or without a signal throw before that."""
from .common import *
from .proc import *

def check(ctx):
    ctx.guard('blocks', 'process()', blocks, ctx)
    ctx.guard('order of settings', 'process()', order, ctx)
    ctx.guard('flow', 'process()', flow, ctx)
    ctx.guard('refusals', 'process()', refusals, ctx)

def numeric(ctx, a, b, guard, special, want='n'): return compare(a, b, None, n=500, seed=ctx.seed, special=special, want=want, guard=guard)

def blocks(ctx):
    c = clock(ctx); lp = c.lp; w = c.p
    for t in c.tot: ctx.same('length', w, t, ('trunc', ('uf', 'round', mul(RATE, DUR))), Facts([le(ZERO, mul(RATE, DUR))]), 'number of frames is duration times rate, rounded', special=[(lambda t: t == RATE, lambda r, t: r.choice([8000.0, 44100.0, 48000.0, 22050.5])), (lambda t: t == DUR, lambda r, t: r.uniform(0, 0.01))])
    want = [('goes on while there are frames left', c.cond, lt(POS, NTOT), TRUE, 'b'), ('length of the input block', c.bin, tmin(BS, sub(NTOT, POS)), lt(POS, NTOT), 'n'),
            ('length of the output block', c.bout, tmin(BS, sub(NTOT, POS)), lt(POS, NTOT), 'n')]
    best = None
    for m, init, nxt, name in c.position():
        kpos = ('in', P('k#size')) in m.values()
        res = []
        sp = c.special
        base = [le(POS, NTOT), lt(ZERO, BS)]
        def S(t):
            t = subst(t, m)
            return subst(t, {POS: mul(('in', P('k#size')), BS)}) if kpos else t
        if any(x[0] in ('phi', 'lo', 'kap') for lab, t, sp_, g, k in want for x in subterms(S(t))): continue
        cond = S(c.cond) if not (kpos and lp.T is not None) else lt(('in', P('k#size')), c.abs(lp.T))
        fs = and_(*[S(b) for b in base])
        for lab, t, spec, g, k in want:
            res.append((lab, numeric(ctx, cond if k == 'b' else S(t), S(spec), and_(fs, S(g)), sp, k), S(t)))
        res.append(('starts at the first frame', numeric(ctx, init, ZERO, TRUE, sp), init))
        n2 = nxt(m)
        if any(x[0] in ('phi', 'lo', 'kap') for x in subterms(n2)): continue
        stp = and_(fs, S(lt(POS, NTOT)))
        adv = numeric(ctx, tmin(S(n2) if not kpos else n2, NTOT), tmin(S(add(POS, BS)), NTOT), stp, sp)
        res.append(('next block starts where this one ends', adv, n2))
        bad = [r for r in res if r[1] != 'eq']
        if best is None or len(bad) < len(best[1]): best = (res, bad, name)
        if not bad: break
    if best is None: ctx.unk('blocks', w, 'no loop variable tells the position in the signal'); return
    res, bad, name = best
    for lab, r, t in res:
        if r == 'eq': ctx.ok('blocks', w, '%s (position: %s)' % (lab, name))
        elif lab.startswith('starts') and any(x[0] == 'in' for x in subterms(t)): ctx.unk('blocks', w, '%s: %s' % (lab, show(t)))
        elif r[0] == 'ne': ctx.bad('blocks', w, '%s: %s (position: %s; e.g. %s)' % (lab, clip(show(t)), name, ', '.join('%s=%s' % (show(k[0]), v) for k, v in r[3].vals.items() if k[0] in (POS, NTOT, BS, ('in', P('k#size')))) + ': %s vs %s' % (r[1], r[2])))
        else: ctx.unk('blocks', w, '%s: %s' % (lab, r[1]))
    ctx.must('blocks', w, True if not lp.brk or lp.exitcond == FALSE else None, 'the loop is not left early')
    e = c.p; i, o = e.snap[c.i], e.snap[c.o]
    for lab, sn, want in (('input', i, NIN_), ('output', o, NOUT_)):
        ctx.same('channels', e, sn['#nch'], want, None, '%s block has the configured number of channels' % lab)

def order(ctx):
    """the same blocks whichever setting was made first"""
    a, b = clock(ctx), clock(ctx, True)
    m = {('phi', b.L, k): ('phi', a.L, k) for k in b.lp.phis}
    for lab, x, y, k in (('loop condition', a.lp.cond, b.lp.cond, 'b'), ('input block length', a.p.snap[a.i]['#nfr'], b.p.snap[b.i]['#nfr'], 'n'), ('output block length', a.p.snap[a.o]['#nfr'], b.p.snap[b.o]['#nfr'], 'n')):
        y = subst(y, m)
        if x == y: ctx.ok('order of settings', b.p, lab + ' does not depend on the order of settings'); continue
        pure = all(t[0] in ('in', 'phi', 'int', 'flt', 'trunc', 'uf', 'mul', 'add', 'min', 'max', 'lt', 'le', 'eq', 'not', 'prod', 'and', 'or', 'ite') for t in [y] + list(subterms(y)))
        r = compare(x, y, None, n=300, seed=ctx.seed, want=k, special=[(lambda t: t[0] == 'phi', lambda r, t: r.randint(0, 10)), (lambda t: t == DUR, lambda r, t: r.choice([0.5, 2.0, 7.0])), (lambda t: t == RATE, lambda r, t: r.choice([1.0, 5.0, 10.0, 20.0]))]) if pure else ('?', 'not comparable')
        if r == 'eq': ctx.ok('order of settings', b.p, lab + ' does not depend on the order of settings')
        elif r[0] == 'ne' or sem_phi(x) == sem_phi(y) and pure: ctx.bad('order of settings', b.p, '%s depends on the order of settings: %s, or %s when they are made in reverse' % (lab, clip(show(x)), clip(show(y))))
        else: ctx.unk('order of settings', b.p, '%s: %s' % (lab, r[1]))

def sem_phi(t): return sorted({x for x in subterms(t) if x[0] == 'phi'}, key=repr)

def root(s, t):
    """what a buffer held before loops over the chain changed it"""
    while t[0] == 'lo' and t[2] in s.loops[t[1]].phis: t = s.loops[t[1]].phis[t[2]][0]
    return t

def every(ctx, rule, e, L, what):
    """e happens exactly once per iteration of L"""
    s = process(ctx)
    if e.loops[:1] != (L,): ctx.bad(rule, e, what + ': outside the block loop'); return False
    if len(e.loops) != 1: ctx.unk(rule, e, what + ': inside a further loop'); return False
    if e.pc != TRUE:
        r = sem.implies(TRUE, e.pc)
        if r: ctx.ok(rule, e, what); return True
        pos = any(x[0] in ('phi', 'in', 'sel', 'ev', 'empty') for a in sem.atoms(e.pc) for x in [a] + list(subterms(a)))
        (ctx.bad if pos else ctx.unk)(rule, e, '%s: only when %s' % (what, clip(show(e.pc)))); return False
    ctx.ok(rule, e, what); return True

def flow(ctx):
    c = clock(ctx); s = c.s; A = accum(ctx); L = c.L; p = c.p
    every(ctx, 'once', p, L, 'the tested effect processes every block')
    rs = [e for e in A.rend if e.this == A.rend[0].this]
    if not rs: ctx.bad('once', p, 'the input signal is never rendered'); return
    if len(rs) > 1:
        t = [e for e in rs if e.loops == p.loops]
        (ctx.bad if len(t) == len(rs) and all(e.pc == TRUE for e in rs) or len(t) < len(rs) else ctx.unk)('once', rs[1], 'the input signal is rendered once per block: %d places render it' % len(rs)); return
    r = rs[0]
    every(ctx, 'once', r, L, 'the input signal is rendered for every block')
    i, o = p.snap[c.i], p.snap[c.o]
    ctx.must('flow', p, True if root(s, i['#s']) == ('evout', r.id, 0) else (False if root(s, i['#s'])[0] in ('constarr', 'evout', 'in') else None), 'what the effect gets is what the signal has just rendered (through its chain)')
    ctx.same('channels', r, r.snap[0]['#nch'], NIN_, None, 'the signal renders the configured number of channels')
    ctx.must('flow', r, True if r.snap[0]['#nfr'] == i['#nfr'] else None, 'the signal renders blocks of the same length')
    for kind, want in (('in', 'input'), ('out', 'output')):
        bufs = [b for b, k in A.kinds.items() if kind in k]
        if not bufs: ctx.bad('recording', p, 'no buffer records every %s block' % want) if not any(None in k for k in A.kinds.values()) else ctx.unk('recording', p, 'the buffer that records the %s is not found' % want); continue
        for b in bufs:
            es = [e for e in A.apps if e.buf == b]
            if len(es) > 1: (ctx.bad if all(e.loops == p.loops and e.pc == TRUE for e in es) else ctx.unk)('recording', es[1], '%s is recorded once per block' % want); continue
            e = es[0]
            if not every(ctx, 'recording', e, L, '%s is recorded for every block' % want): continue
            ctx.must('recording', e, True if e.n1 == p.snap[c.i]['#nfr'] or e.n1 == p.snap[c.o]['#nfr'] else None, '%s is recorded in full' % want)
            key = b + SKEY; ph = ('phi', L, key); nf = b + ('#nfr',)
            ini, nxt = c.lp.phis.get(key, (None, None)); ini2, nxt2 = c.lp.phis.get(nf, (None, None))
            ctx.must('recording', e, None if nxt is None else True if nxt == ('append', ph, ('phi', L, nf), e.src, e.n1) and nxt2 == add(('phi', L, nf), e.n1) else None, '%s recording only grows, in order' % want)
            ctx.must('recording', e, None if ini2 is None else ini2 == ZERO if isnum(ini2) else None, '%s recording starts empty' % want)
            ctx.same('channels', e, e.nch, NIN_ if kind == 'in' else NOUT_, None, '%s recording has the configured number of channels' % want)

def refusals(ctx):
    c = clock(ctx); s = c.s; A = accum(ctx)
    sig = A.rend[0].this[0][1] if A.rend and A.rend[0].this and A.rend[0].this[0][0] == 'deref' else None
    thr = [t for t in s.throws]
    asm = [f for f in c.p.asm if not any(x[0] in ('phi', 'lo', 'kap', 'kx') for x in subterms(f))]
    # a run that gets to the audio has assumptions that rule the condition out
    lab = 'a test with nothing to process is refused'
    rel = [f for f in asm if (lv := leavesof(f)) and lv <= {RATE, DUR}]
    sp = [(lambda t: t == RATE, lambda r, t: r.choice([8000.0, 44100.0, 48000.0, 1.0])), (lambda t: t == DUR, lambda r, t: r.choice([0.0, 1e-9, 1e-6, 1e-5, .25, .6]))]
    zero = lt(mul(RATE, DUR), ('flt', .5))
    r = compare(and_(*rel), FALSE, None, n=300, seed=ctx.seed, special=sp, want='b', guard=zero) if rel else 'ne'
    ctx.must('refusals', c.p, True if r == 'eq' else False if r == 'ne' or r[0] == 'ne' else None, lab)
    lab = 'a test without an input signal is refused'
    if sig is None: ctx.unk('refusals', c.p, 'the input signal is not found'); return
    null = eq(NULL, sig)
    if any(sem.implies(f, not_(null)) for f in asm): ctx.ok('refusals', c.p, lab)
    elif not any(null in subterms(f) or f == null for f in asm) and not any(x[0] == 'in' and x[1][:1] == OBJ for f in asm for x in [f, f[1] if f[0] == 'not' else f]): ctx.bad('refusals', c.p, lab + ': nothing refuses it')
    else: ctx.unk('refusals', c.p, lab)

def leavesof(f): return {y for y in subterms(f) if y[0] in ('in', 'ev')} | ({f} if f[0] in ('in', 'ev') else set())
