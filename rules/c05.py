"""Typestate over the call events in the summaries of process() and of EqualsTo's preparation (both go through the signal's and its chain's): at each call
that prepares an effect or a signal, the same object (same element of the same chain) has been asked for exactly that
channel layout and that sample rate, the answer is known to be yes on every path that gets there, and on a no an exception is
thrown. At each call that processes or renders audio the object has been prepared, for the channels of the blocks it gets."""
from .common import *
from .proc import *

ASK = {'hart::DSP::prepare': [('supportsChannelLayout', lambda a: [a[1], a[2]]), ('supportsSampleRate', lambda a: [a[0]])],
       'hart::Signal::prepare': [('supportsNumChannels', lambda a: [a[1]]), ('supportsSampleRate', lambda a: [a[0]])]}
RUN = {'hart::DSP::process': 'hart::DSP::prepare', 'hart::Signal::renderNextBlock': 'hart::Signal::prepare'}

def check(ctx):
    ctx.guard('process()', 'process()', run, ctx, 'process()', lambda: ctx.seq(builder(ctx), [(ctx.method(builder(ctx), 'process', 0), [])], this=OBJ, opaque=WRITERS))
    ctx.guard('EqualsTo', 'EqualsTo', run, ctx, 'EqualsTo', lambda: equalsto(ctx))

def equalsto(ctx):
    rec = ctx.rec('hart::EqualsTo')
    return ctx.seq(rec, [(ctx.method(rec, 'prepare', 3), [('in', P('rate')), ('in', P('n')), ('in', P('max'))]), (ctx.method(rec, 'match', 1), [P('audio')])], this=OBJ)

def alpha(e, k):
    """object expression with its loop counters numbered by nesting"""
    loops = [l for l in e.loops if any(x == ('kap', l) for x in walkt(k))]
    return replace(k, {('kap', l): ('kap', 'L%d' % i) for i, l in enumerate(loops)}), loops
def walkt(t):
    if isinstance(t, tuple):
        yield t
        for x in t: yield from walkt(x)
def replace(t, m):
    if t in m: return m[t]
    return tuple(replace(x, m) if isinstance(x, tuple) else x for x in t) if isinstance(t, tuple) else t

def sameobj(s, e, f):
    """do two calls act on the same objects, element by element? True / False / None; with the loops to match up"""
    a, la = alpha(e, e.this); b, lb = alpha(f, f.this)
    if a != b or len(la) != len(lb): return False, la, lb
    m = {}
    for x, y in zip(la, lb):
        if x != y:
            tx, ty = s.loops[x].T, s.loops[y].T
            if tx is None or ty is None or replace(tx, m) != ty: return None, la, lb
            m[('kap', x)] = ('kap', y)
    return True, la, lb

def whole(s, L, e):
    """a loop that visits every element, unconditionally with respect to its surroundings"""
    lp = s.loops[L]; return lp.T is not None and lp.pc == TRUE and lp.exitcond == FALSE

def conj(fs):
    out = []
    for f in fs: out += conj(f[1:]) if f[0] == 'and' else [f]
    return out

def known(s, f, e, want):
    """is the answer of query f known to be yes when e runs: 'throw', 'branch', or None"""
    res = ('ev', f.id, f.n); asm = conj(e.asm); pc = conj([e.pc])
    sl = [l for l in f.loops if l in e.loops]
    extra = [l for l in f.loops if l not in e.loops]
    t = res
    for l in reversed(extra):
        if not whole(s, l, e) or f.pc != TRUE: return None
        t = ('forall', l, t)
    if t in asm: return 'throw'
    if t in pc: return 'branch'
    if sem.implies(and_(*[a for a in asm if res in subterms(a) or a == res]), res) and not extra: return 'throw'
    if not extra and sem.implies(e.pc, res): return 'branch'
    return None

def anyway(ctx, e, f):
    """shows that e is reached although query f said no: every fact about the answer that holds at e can hold with a no"""
    res = ('ev', f.id, f.n)
    if any(l not in e.loops for l in f.loops): return False
    fs = [x for x in conj(e.asm) + conj([e.pc]) if res in subterms(x) or x == res]
    pure = lambda x: all(y[0] in ('in', 'kap') for y in list(subterms(x)) + [x] if y[0] in ('in', 'ev', 'phi', 'lo', 'kap', 'exists', 'sel', 'forall', 'empty', 'has'))
    g = subst(and_(*fs), {res: FALSE})
    if g == FALSE or not pure(g): return False
    oth = [x for x in conj(e.asm) + conj([e.pc]) if x not in fs and pure(x)]
    r = compare(and_(g, *oth), FALSE, None, n=300, seed=ctx.seed, want='b', special=[(lambda t: t[0] == 'in', lambda r, t: r.choice([1, 2, 3, 8, 44100]))])
    return r != 'eq' and r[0] == 'ne'

def run(ctx, label, get):
    s = get()
    prep = [e for e in s.log if e.kind == 'icall' and e.q in ASK and e.pc != FALSE]
    runs = [e for e in s.log if e.kind == 'icall' and e.q in RUN and e.pc != FALSE]
    if not prep: raise Missing('calls that prepare')
    for e in prep:
        for name, sel_ in ASK[e.q]:
            want = sel_(e.args); lab = '%s: %s asked %s(%s) before it is prepared' % (label, showloc(e.this), name, ', '.join(show(a) for a in want))
            qs = [f for f in s.log if f.kind == 'icall' and f.n == name and f.id < e.id]
            mine = []; maybe = False
            for f in qs:
                r, la, lb = sameobj(s, f, e)
                if r is None: maybe = True
                if r: mine.append((f, {('kap', x): ('kap', y) for x, y in zip(la, lb)}))
            if not mine: (ctx.unk if maybe else ctx.bad)('asked', e, lab + ': never'); continue
            good = [(f, m) for f, m in mine if [replace(a, m) for a in f.args] == list(want)]
            if not good:
                f, m = mine[-1]
                rs = [compare(replace(a, m), b, None, n=100, seed=ctx.seed) for a, b in zip(f.args, want)]
                if all(r == 'eq' for r in rs): good = [(f, m)]
                elif any(r[0] == 'ne' for r in rs): ctx.bad('asked', f, lab + ': asked for %s' % ', '.join(show(a) for a in f.args)); continue
                else: ctx.unk('asked', f, lab); continue
            ks = [known(s, f, e, want) for f, m in good]
            if 'throw' in ks: ctx.ok('asked', e, lab + ', and a no raises an error')
            elif 'branch' in ks: ctx.bad('asked', e, lab + ': a no raises no error')
            else:
                f, m = good[-1]
                pos = any(('ev', f.id, f.n) in subterms(x) or x == ('ev', f.id, f.n) for x in list(e.asm) + [e.pc])
                (ctx.bad if anyway(ctx, e, f) or not pos and f.pc == TRUE else ctx.unk)('asked', e, lab + ': prepared whatever the answer')
    for e in runs:
        ps = []; maybe = False
        lab = '%s: %s is prepared before it gets audio' % (label, showloc(e.this))
        for f in prep:
            if f.id > e.id or f.q != RUN[e.q]: continue
            r, la, lb = sameobj(s, f, e)
            if r is None: maybe = True
            if r: ps.append((f, {('kap', x): ('kap', y) for x, y in zip(la, lb)}))
        if not ps: (ctx.unk if maybe else ctx.bad)('prepared', e, lab); continue
        f, m = ps[-1]
        done = f.pc == TRUE and all(l in e.loops or whole(s, l, e) for l in f.loops)
        ctx.must('prepared', e, True if done else (False if f.pc != TRUE and f.loops == e.loops[:len(f.loops)] else None), lab)
        blk = [(j, e.snap[j]) for j, a in enumerate(e.args) if a[0] == 'loc' and j in e.snap and '#nch' in e.snap[j] and '#s' in e.snap[j]]
        args = [replace(a, m) for a in f.args]
        want = [args[1], args[2]] if e.q == 'hart::DSP::process' else [args[1]]
        for (j, sn), w, lab2 in zip(blk, want, ('input', 'output') if len(want) == 2 else ('output',)):
            if any(x[0] == 'in' and x[1][0] in (('P', 'block'), ('P', 'audio')) for x in [sn['#nch']] + list(subterms(sn['#nch']))): continue
            ctx.same('layout', e, sn['#nch'], w, None, '%s: %s gets %s blocks of the layout it was prepared for' % (label, showloc(e.this), lab2))
