"""hold(), rampTo() and the constructor of a segmented envelope are summarised: each adds exactly one segment at the end of the list and
keeps the final value up to date; nothing else touches the list. The render function's summary is a loop over frames around a loop
over segments. Of the inner loop: which segments it skips (for a held segment and every enumerator of Shape), what a skipped
segment leaves as time and start value; of the outer: time goes on by one frame (1 / sample rate). The value written in
a segment is compared, as a term with the fields that hold() and rampTo() store filled in, with the interpolation asked for; with no
segment left it must be the final value."""
from .render import *
from .proc import *

SHAPES = {'linear': lambda b, g, t: add(b, mul(sub(g, b), t)), 'exponential': lambda b, g, t: mul(b, mk('uf', 'pow', fdiv(g, b), t)),
          'sCurve': lambda b, g, t: add(b, mul(sub(g, b), mul(mul(t, t), sub(num(3.0), mul(num(2.0), t)))))}

def check(ctx):
    rec = ctx.rec('hart::SegmentedEnvelope')
    K = ctx.guard('adding', rec['q'], adding, ctx, rec)
    if K is None: return
    ctx.guard('untouched', rec['q'], untouched, ctx, rec, K)
    ctx.guard('running', rec['q'], running, ctx, rec, K)

class Kinds: pass

def shapes(ctx):
    e = next((e for q, e in ctx.prog.enums.items() if q.endswith('SegmentedEnvelope::Shape')), None)
    if e is None: raise Missing('enumeration Shape')
    return {c['n']: c['v'] for c in e['consts']}

def adding(ctx, rec):
    """what hold and rampTo store; the list; the field with the final value"""
    K = Kinds(); K.stored = {}; K.vec = None; K.sh = shapes(ctx)
    fh, fr = ctx.method(rec, 'hold', 1), ctx.method(rec, 'rampTo', 3)
    K.E = None
    for f, a in ((fr, [('in', P('G')), ('in', P('D')), ('in', P('S'))]), (fh, [('in', P('D'))])):
        s = ctx.run(f, rec, a); n = f['n']
        ps = [e for e in s.log if e.kind == 'push' and e.pc != FALSE]
        if not ps: (ctx.unk if any(e.kind == 'call' for e in s.log) else ctx.bad)('adding', f, '%s adds no segment' % n); return None
        if len(ps) > 1: (ctx.bad if ps[0].pc == ps[1].pc == TRUE else ctx.unk)('adding', ps[1], '%s adds more than one segment' % n); return None
        e = ps[0]
        if e.loops: ctx.unk('adding', e, '%s adds in a loop' % n); return None
        if not unconditional(ctx, 'adding', e, e.pc, '%s adds a segment' % n, e.asm): return None
        size = ('in', e.vec + ('#size',))
        if e.at != size: (ctx.bad if pure(e.at) else ctx.unk)('adding', e, '%s adds its segment at %s' % (n, show(e.at))); return None
        if K.vec is not None and K.vec != e.vec: ctx.bad('adding', e, '%s adds to another list' % n); return None
        K.vec = e.vec; ctx.ok('adding', e, '%s adds one segment at the end' % n)
        arr = {k: sel(s.arr(k), ('ix', size)) for k in s.st.store if k[:len(e.vec) + 1] == e.vec + (('[]',),) and k[len(e.vec) + 1:]}
        K.stored[n] = arr
        g = [x for x in writtenfields(s) if x[:len(e.vec)] != e.vec]
        new = {x: s.st.store[x] for x in g}
        K.__dict__['left_' + n] = new
        z = s.read(e.vec + ('#size',))
        ctx.must('adding', e, True if z == add(size, ONE) else False if pure(z) else None, '%s makes the list longer by one' % n)
    G = ('in', P('G'))
    c = [k for k, v in K.left_rampTo.items() if v == G]
    K.ends = c
    if set(K.stored['hold']) != set(K.stored['rampTo']): ctx.unk('adding', fh, 'hold and rampTo fill different fields'); return None
    return K

def untouched(ctx, rec, K):
    for f in ctx.methods(rec):
        if f.get('kind') == 'ctor' or f['n'] in ('hold', 'rampTo', 'copy', 'move') or f['n'].startswith('operator'): continue
        s = ctx.run(f, rec, [P('q%d' % i) if ctx.prog.ty(p['t'])['k'] in ('ref', 'rref') else ('in', P('q%d' % i)) for i, p in enumerate(f['params'])])
        if s.st is None: continue
        w = [k for k in writtenfields(s) if k[:len(K.vec)] == K.vec] + [e for e in s.log if e.kind in ('push', 'vclear', 'vresize') and getattr(e, 'vec', None) == K.vec and e.pc != FALSE]
        if w and f['n'] in ('renderNextBlock', 'prepare', 'reset'): ctx.bad('untouched', f, '%s changes the list of segments' % f['n'])
        elif w: ctx.unk('untouched', f, '%s changes the list of segments' % f['n'])
        else: ctx.ok('untouched', f, '%s leaves the list of segments alone' % f['n'])

def running(ctx, rec, K):
    n, f, s, outk, NF, *rest = envelopeblock(ctx, rec); rule = 'running'
    O = observed(s, outk, NF, rest[1])
    outer = [L for L in O.perframe]
    inner = [L for L in O.seen if s.loops[L].parent in outer]
    if len(outer) != 1 or len(inner) != 1: ctx.unk(rule, f, 'loops over frames and segments'); return
    Lo, Li = outer[0], inner[0]; lo, li = s.loops[Lo], s.loops[Li]; A, norm = O.A, O.norm
    size = ('in', K.vec + ('#size',))
    left = ('in', P('left%d' % Li)); kx, kn = ('in', P('kx%d#size' % Li)), ('in', P('kn%d#size' % Li))
    if li.pc != TRUE and A(norm(li.pc)) != TRUE: ctx.unk(rule, f, 'segments are looked at only when %s' % show(li.pc)); return
    # ---- the segment looked at in turn k
    idxs = {y[2] for y in [li.exitcond] + list(subterms(li.exitcond)) if y[0] == 'sel' and y[1][0] == 'in' and y[1][1][:len(K.vec)] == K.vec}
    if len(idxs) != 1: ctx.unk(rule, f, 'which segment is looked at: %s' % ', '.join(show(i) for i in idxs)); return
    ix = idxs.pop(); base = subst(ix[1], {('kap', Li): ZERO})
    if base[0] != 'phi' or base[1] != Lo: ctx.unk(rule, f, 'segment %s' % show(ix)); return
    if ix[1] != add(base, ('kap', Li)): (ctx.bad if ix[1][0] == 'add' else ctx.unk)(rule, f, 'turn k looks at segment %s, not at one after the other' % show(ix[1])); return
    ctx.ok(rule, f, 'segments are looked at one after the other')
    V = next((x for k, w, x in O.terms if k == 'value'), None)
    if li.T is None or norm(li.T) != sub(size, base):
        kap, J, SZ_ = ('in', P('k#size')), ('in', P('j#size')), ('in', P('n#size')); m = {('kap', Li): kap, base: J, size: SZ_}
        sp = [(lambda t: True, lambda r, t: r.choice(SMALL))]
        if li.T is not None: a, b, g, k = subst(norm(li.T), m), sub(SZ_, J), le(J, SZ_), 'n'
        else: a, b, g, k = subst(norm(li.cond), m), lt(add(J, kap), SZ_), le(J, SZ_), 'b'
        r = compare(a, b, None, n=300, seed=ctx.seed, guard=g, special=sp, want=k)
        rest = subst(V, {left: FALSE}) if V is not None else None
        els = rest is None or mentions(rest, lambda y: y[0] == 'sel' and y[1][0] == 'in' and y[1][1][:len(K.vec)] == K.vec)
        if r != 'eq':
            (ctx.bad if r[0] == 'ne' and pure(a) and not els else ctx.unk)(rule, f, 'not all segments are looked at: %s' % (show(li.T) if li.T is not None else show(li.cond))); return
    ctx.ok(rule, f, 'up to the last one')
    # ---- roles
    D, G, S, B, t = (('in', P(x)) for x in ('D', 'G', 'S', 'B', 't'))
    car = {k: v for (L, k), v in O.carried.items() if L == Li}
    dk = [k for k, v in K.stored['hold'].items() if v == D]
    if len(dk) != 1: ctx.unk(rule, f, 'field with the duration'); return
    time = [k for k in car if mentions(norm(li.exitcond), lambda y: y == ('phi', Li, k))]
    if len(time) != 1: ctx.unk(rule, f, 'field with the time'); return
    time = time[0]; others = [k for k in car if k != time]
    if len(others) != 1: ctx.unk(rule, f, 'field with the start value'); return
    beg = others[0]
    def fill(x, kind, at):
        """a term with the segment at `at` being one that hold()/rampTo() stored"""
        m = {('sel', ('in', k), ('ix', at)): v for k, v in K.stored[kind].items()}
        m[('phi', Li, time)] = t; m[('phi', Li, beg)] = B
        x = subst(x, m)
        if kind == 'hold': x = subst(x, {('in', e): B for e in K.ends})      # by induction: the final value so far is what the segments before end with
        return x
    kinds = [('hold', 'a held segment', {}, B, None)] + [('rampTo', 'a %s ramp' % nm, {S: num(v)}, G, nm) for nm, v in sorted(K.sh.items())]
    sp = [(lambda x: x == D, lambda r, x: r.choice([0.0, 0.5, 1.0, 2.0, r.uniform(0, 5), 10 ** r.uniform(-3, 3)])), (lambda x: x == t, lambda r, x: r.choice([0.0, 0.5, 1.0, r.uniform(0, 5), 10 ** r.uniform(-7, 2)])),
          (lambda x: x in (B, G), lambda r, x: r.choice([1.0, .5, 2.0, r.uniform(.01, 30), 10 ** r.uniform(-4, 4), r.uniform(.9, 1.1)])), (lambda x: x[0] == 'in' and sem.is_unsigned_leaf(x), lambda r, x: r.choice(SMALL))]
    at1 = add(base, ('kap', Li)); at2 = add(base, kx)
    for kind, lab, m, end, nm in kinds:
        # skipped when over
        x = subst(fill(norm(li.exitcond), kind, at1), m)
        bad = [y for y in [x] + list(subterms(x)) if y[0] == 'in' and y not in (D, G, B, t)]
        g = or_(lt(t, D), lt(D, t), and_(eq(t, ZERO), eq(D, ZERO)))
        if bad: ctx.unk(rule, f, '%s ends when %s' % (lab, clip(show(x), 200)))
        else: ctx.same(rule, f, x, lt(t, D), None, '%s lasts until its duration is over, and is then skipped' % lab, special=sp, wantk='b', guard=g)
        # what it leaves
        x = subst(fill(car[beg][1], kind, at1), m)
        same(ctx, rule, f, x, end, '%s: the next one starts where it ends' % lab, sp)
        x = subst(fill(car[time][1], kind, at1), m)
        same(ctx, rule, f, x, sub(t, D), '%s: the next one starts at once' % lab, sp)
        # value
        x = subst(V, {left: TRUE}); x = Facts([lt(at2, size)]).simp(x); x = subst(fill(x, kind, at2), m)
        if nm is None: w = B
        elif nm in SHAPES: w = SHAPES[nm](B, G, fdiv(t, D))
        else:
            old = [y for y in [x] + list(subterms(x)) if y[0] == 'phi' and y[1] == Lo]
            (ctx.bad if x in old else ctx.unk)(rule, f, '%s: value %s' % (lab, clip(show(x), 150))); continue
        same(ctx, rule, f, x, w, '%s: the value t seconds into it' % lab, sp, and_(lt(ZERO, t), lt(t, D)))
        if nm == 'exponential':
            sp2 = [(lambda x: x in (B, G), lambda r, x: -r.uniform(.01, 30))] + sp
            same(ctx, rule, f, x, w, '%s between negative values: the value t seconds into it' % lab, sp2, and_(lt(ZERO, t), lt(t, D)))
    # ---- no segment left
    x = subst(V, {left: FALSE, kn: sub(size, base)}); x = Facts([le(base, size)]).simp(x)
    fin = [('in', e) for e in K.ends]
    if x in fin: ctx.ok(rule, f, 'after the last segment: the final value'); final(ctx, rec, K, x[1])
    elif x[0] == 'lo' and x[1:] == (Li, beg): ctx.ok(rule, f, 'after the last segment: the value at which it ended')
    elif isnum(x) or x[0] == 'phi' and x[1] == Lo and x[2] not in (beg, time) or x[0] == 'in' and x[1][:1] == ('this',) and x[1] not in K.left_rampTo or not fin and x[0] == 'in' and x[1][:1] == ('this',): ctx.bad(rule, f, 'after the last segment: %s, not the value at which it ended' % clip(show(x), 150))
    else: ctx.unk(rule, f, 'after the last segment: %s' % clip(show(x), 150))
    # ---- a frame
    ft = None
    z = {('phi', Li, k): i for k, (i, nx) in car.items()}; z.update({('lo', Li, k): i for k, (i, nx) in car.items()}); z.update({left: TRUE, kx: ZERO, kn: ZERO})
    nx = subst(A(norm(lo.phis[time][1])), {**z}); d = sub(nx, ('phi', Lo, time))
    prep = ctx.method(rec, 'prepare', 2); ps = ctx.run(prep, rec, [('in', P('rate')), ('in', P('max#size'))])
    put = {('in', k): v for k, v in ps.st.store.items() if k[:1] == ('this',)}
    d2 = subst(d, put)
    if mentions(d2, lambda y: y[0] in ('phi', 'lo')): ctx.unk(rule, f, 'time goes on by %s' % clip(show(d2)))
    else: ctx.same(rule, f, d2, fdiv(num(1.0), ('in', P('rate'))), None, 'time goes on by one frame per frame', guard=lt(ZERO, ('in', P('rate'))), special=[(lambda t: True, lambda r, t: r.choice([44100.0, 48000.0, 8000.0, 96000.0]))])
    for k, what, w in ((beg, 'the start value', ('phi', Lo, beg)), (base[2], 'the segment', base)):
        x = subst(A(norm(lo.phis[k][1])), z)
        ctx.must(rule, f, True if x == w else None, '%s stays while a segment lasts (%s)' % (what, clip(show(x), 80)))
    for k in (base[2],):
        x = subst(A(norm(lo.phis[k][1])), {left: TRUE})
        ctx.must(rule, f, True if x == add(base, kx) else False if not mentions(x, lambda y: y[0] in ('lo',)) and pure0(x) else None, 'the next frame goes on with the segment reached (%s)' % clip(show(x), 80))
    for k in (time, beg):
        x = subst(A(norm(lo.phis[k][1])), {left: TRUE})
        ctx.must(rule, f, True if x == ('phi', Li, k) else None, 'the next frame goes on from there (%s)' % clip(show(x), 80))
    # ---- made
    for c in ctx.ctors(rec):
        if ctx.iscopy(rec, c): continue
        s2 = ctx.run(c, rec, [('in', P('p%d' % i)) for i, p in enumerate(c['params'])])
        for k, w, what in ((beg, ('in', P('p0')), 'the first segment starts from the initial value'), (time, ZERO, 'time starts at zero'), (base[2], ZERO, 'the first segment is the first added')):
            v = s2.read(k)
            ctx.must(rule, c, True if v == w or isnum(v) and isnum(w) and v[1] == w[1] else False if pure(v) and (isnum(v) or v in [('in', P('p%d' % i)) for i in range(len(c['params']))]) else None, '%s (%s)' % (what, show(v)))

def pure0(x): return True

def final(ctx, rec, K, e):
    """the field with the final value: initial value, then the target of each ramp; unchanged by holds"""
    for c in ctx.ctors(rec):
        if ctx.iscopy(rec, c): continue
        v = ctx.run(c, rec, [('in', P('p%d' % i)) for i, p in enumerate(c['params'])]).read(e)
        ctx.must('running', c, True if v == ('in', P('p0')) else False if isnum(v) or v[0] in ('in', 'undef') else None, 'without segments the initial value is held (%s)' % show(v))
    v = K.left_hold.get(e)
    ctx.must('running', ctx.method(rec, 'hold', 1), True if v is None or v == ('in', e) else False if pure(v) else None, 'a hold leaves the final value')
    for n in ('renderNextBlock', 'prepare', 'reset'):
        f = ctx.method(rec, n); s = ctx.run(f, rec, [P('q%d' % i) if ctx.prog.ty(p['t'])['k'] in ('ref', 'rref') else ('in', P('q%d' % i)) for i, p in enumerate(f['params'])])
        ctx.must('running', f, None if e in writtenfields(s) else True, '%s leaves the final value' % n)

def same(ctx, rule, f, got, want, what, sp, guard=TRUE):
    D, G, B, t = (('in', P(x)) for x in ('D', 'G', 'B', 't'))
    m = {}
    for y in [got] + list(subterms(got)):                    # anything else that is carried along is a value of its own
        if y[0] == 'phi' and y not in m: m[y] = ('in', P('carried_%d_%s' % (y[1], '_'.join(str(z) for z in y[2]))))
    if any(y[0] in ('lo', 'kx', 'kn', 'exists', 'ev') for y in subterms(subst(got, m))): ctx.unk(rule, f, '%s: %s' % (what, clip(show(got), 200))); return
    ctx.same(rule, f, subst(got, m), want, None, what, special=sp, guard=guard)
