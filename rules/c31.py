"""Render functions of stock signals, effects and envelopes as per-frame recurrences. Each loop that walks the frames of a block is
taken as a step function: what it carries from frame to frame must begin with what the last block left in the object (the
initial value, with the fields replaced by what is left after m frames, equals the value carried after m frames), and neither
the step, the values written, the conditions nor what is left behind may depend on the frame's number in the block or the
block's length (replacing the frame number k by k+m gives the same as replacing the fields by what is left after m frames).
Input samples and automation are only read at the frame that is written. Automation is rendered for exactly the block's frames."""
from .render import *
from .proc import *

M_, N1, N2 = ('in', P('m#size')), ('in', P('n#size')), ('in', P('n2#size'))
SZ = [(lambda t: t[0] == 'in' and (sem.is_unsigned_leaf(t)), lambda r, t: r.choice(SMALL + [16, 100]))]

def check(ctx):
    for q in SIGNALS: ctx.guard('same audio', q, signal, ctx, q)
    for r in ctx.subclasses('hart::DSP'):
        if ctx.method(r, 'process', 3, req=False): ctx.guard('same audio', r['q'], effect, ctx, r)
    for r in ctx.subclasses('hart::Envelope'): ctx.guard('same audio', r['q'], envelope, ctx, r)
    ctx.guard('automation', 'processWithEnvelopes', automation, ctx)

def signal(ctx, q): judge(ctx, *signalblock(ctx, q))
def effect(ctx, rec): judge(ctx, *effectblock(ctx, rec))
def envelope(ctx, rec): judge(ctx, *envelopeblock(ctx, rec))

def judge(ctx, n, f, s, outk, NF, reads, pre={}, facts=()):
    rule = 'same audio'
    O = observed(s, outk, NF, pre, facts)
    if O is None: ctx.unk(rule, f, '%s: writes nothing' % n); return
    norm, fams, left, perframe, A, terms, carried, seen, fieldsread = O.norm, O.fams, O.left, O.perframe, O.A, O.terms, O.carried, O.seen, O.fields
    frame = framelooplist(s, NF, norm, perframe, seen)
    if frame is None: ctx.unk(rule, f, '%s: which loop walks the frames' % n); return
    # ---- what is left after m frames that did not end early
    mid = lambda t: t
    def mids(t):
        m = {y: ('in', P('mid_%d_%s' % (y[1], '_'.join(str(z) for z in y[2])))) for y in [t] + list(subterms(t)) if y[0] == 'lo' and y[1] in frame}
        return subst(t, m)
    notleft = {('in', P('left%d' % L)): FALSE for L in frame}
    M = {}
    for y in fieldsread:
        a = subst(A(left[y]), notleft)
        M[y] = subst(mids(a), {NF: M_, ('kap', -1): ZERO})
    def shift(t): return subst(t, M)
    def running(L): return subst(and_(*[A(norm(s.loops[x].pc)) for x in [L] + parents(s, L)]), notleft)
    # ---- links: what is carried begins where the last block stopped
    good = True
    for (L, k), (i, nx) in sorted(carried.items(), key=repr):
        if L not in frame:
            out = [o for o in frame if inside(s, o, L)]
            if out: ctx.bad(rule, f, '%s: %s is carried through whole blocks, loop around the frames: the result depends on where blocks end' % (n, showkey(k))); good = False
            continue
        want = mids(('lo', L, k)); got = shift(A(i))
        if got == want: ctx.ok(rule, f, '%s: %s goes on where the last block stopped' % (n, showkey(k))); continue
        r = cmp(ctx, got, want, running(L))
        if r is True: ctx.ok(rule, f, '%s: %s goes on where the last block stopped' % (n, showkey(k)))
        else: (ctx.bad if r is False else ctx.unk)(rule, f, '%s: %s starts a block with %s, not with what the last block stopped at (%s)' % (n, showkey(k), clip(show(i), 120), clip(show(got), 120))); good = good and r is not False
    # ---- values, conditions, steps
    facts = [norm(x) for x in facts]
    for kind, w, t in terms:
        if kind in ('init', 'left'): continue
        if kind == 'start': 
            if w in frame: pass
        own = None; run = TRUE
        if kind in ('value', 'condition'):
            for L in w.loops:
                if L in frame: run = and_(run, running(L))
        if kind in ('step', 'exit', 'length', 'start'):
            L = w[0] if isinstance(w, tuple) else w
            chain = [L] + parents(s, L); own = [o for o in chain if o in frame]
            if kind == 'start' and L in frame: own = own[1:]
            if own: run = running(own[0])
            if own: t = subst(t, {('kap', own[0]): FF})
        lab = {'value': 'the value written', 'condition': 'the condition for writing', 'step': 'the step of %s' % showkey(w[1]) if kind == 'step' else '', 'exit': 'the condition for stopping', 'length': 'a loop', 'start': 'a condition'}[kind]
        parts = [t]
        if kind == 'length' and w in frame: parts = [c for c in conj(t) if not (mentions(c, lambda y: y == NF))] if s.loops[w].T is None else []
        if kind == 'condition': parts = [c for c in conj(t) if not (mentions(c, lambda y: y == NF) and implied(ctx, and_(lt(FF, NF), A(at(w, ('ix', CC, FF) if len(w.idx) == 3 else ('ix', FF))[0] if w.guard == TRUE else at(Fam(w.loops, w.idx, w.val, TRUE, w.Ts), ('ix', CC, FF) if len(w.idx) == 3 else ('ix', FF))[0])), c))]
        for p in parts:
            if facts: p = Facts([lt(FF, NF)] + facts).simp(p)
            p, odd = ownframe(p, reads, FF)
            if odd is not None:
                r = sem.compare(odd[1], FF, None, n=200, seed=ctx.seed, special=SZ, guard=lt(FF, NF))
                if r != 'eq':
                    (ctx.bad if r[0] == 'ne' and pure(odd[1]) else ctx.unk)(rule, f, '%s: %s reads %s, another frame than the one written' % (n, lab, clip(show(odd[0]), 120))); good = False; continue
            fx = [subst(x, {NF: N1}) for x in facts] + [lt(FF, N2), lt(add(FF, M_), N1)]
            lhs = subst(p, {FF: add(FF, M_), NF: N1}); rhs = subst(shift(subst(p, {})), {NF: N2})
            if lhs == rhs: ctx.ok(rule, f, '%s: %s (%s)' % (n, lab, clip(show(p), 60))); continue
            fld = not mentions(p, lambda y: y in (FF, NF) or y[0] in ('phi', 'lo'))      # only looks at the object
            r = cmp(ctx, lhs, rhs, and_(*fx, TRUE if fld else run), [subst(x, {NF: N2}) for x in facts])
            if r is True: ctx.ok(rule, f, '%s: %s (%s)' % (n, lab, clip(show(p), 60)))
            else: (ctx.bad if r is False else ctx.unk)(rule, f, '%s: %s depends on how the frames are split into blocks: %s' % (n, lab, clip(show(p), 300))); good = False
    ending(ctx, rule, n, f, s, A, norm, left, frame, running, fams, NF)
    # ---- what is left behind does not depend on the block's length either
    for y in sorted(fieldsread, key=repr):
        a = subst(A(left[y]), {})
        for case in (False, True):
            ls = [L for L in frame if mentions(a, lambda z: z == ('in', P('left%d' % L)))]
            if case and not ls: continue
            v = subst(a, {('in', P('left%d' % L)): TRUE if case else FALSE for L in ls})
            if not mentions(v, lambda z: z == NF): ctx.ok(rule, f, '%s: what is left in %s' % (n, showkey(y[1]))); continue
            if case and not mentions(v, lambda z: z == NF): continue
            if case: 
                r = cmp(ctx, subst(v, {NF: N1}), subst(v, {NF: N2}), TRUE)
            else:
                r = cmp(ctx, subst(v, {NF: add(M_, N2)}), subst(subst(v, {NF: N2}), {y2: subst(z, {}) for y2, z in M.items()}), TRUE)
            if r is True: ctx.ok(rule, f, '%s: what is left in %s' % (n, showkey(y[1])))
            else: (ctx.bad if r is False else ctx.unk)(rule, f, '%s: what is left in %s depends on the block length: %s' % (n, showkey(y[1]), clip(show(v), 200)))

def ending(ctx, rule, n, f, s, A, norm, left, frame, running, fams, NF):
    """a loop left early (the end of a sound) is not entered again by the next block, which writes the same as the rest of this one"""
    for L in sorted(frame):
        if s.loops[L].exitcond == FALSE: continue
        sym = ('in', P('left%d' % L)); pc = A(norm(s.loops[L].pc))
        X = {y: subst(A(v), {sym: TRUE}) for y, v in left.items()}
        a = subst(pc, X)
        r = cmp(ctx, and_(pc, a), FALSE, TRUE)
        (ctx.ok if r is True else ctx.bad if r is False else ctx.unk)(rule, f, '%s: what ended in a block has ended for the next one (%s)' % (n, clip(show(a), 100)))
        rest = [x for x in fams if mentions(A(x.guard), lambda y: y == sym) and x.loops[:1] != (L,) and not (x.idx is not None and x.idx[-1] == ('kx', L))]
        for x in rest:
            for z in fams:
                if L in z.loops or z in rest: continue
                g = subst(subst(A(z.guard), X), {sym: FALSE})
                if g == FALSE or x.val == z.val: continue
                r = cmp(ctx, x.val, z.val, TRUE)
                (ctx.ok if r is True else ctx.bad if r is False and pure(x.val) and pure(z.val) else ctx.unk)(rule, f, '%s: the rest of the block is %s, the next block %s' % (n, clip(show(x.val), 80), clip(show(z.val), 80)))

def implied(ctx, a, c):
    r = compare(or_(not_(a), c), TRUE, None, n=300, seed=ctx.seed, want='b', special=SZ)
    return r == 'eq'

def showkey(k): return '.'.join(str(x) for x in k if isinstance(x, str) and x != 'this') or str(k[-1])

def parents(s, L):
    out = []; p = s.loops[L].parent
    while p is not None and p in s.loops: out.append(p); p = s.loops[p].parent
    return out
def inside(s, inner, outer): return outer in parents(s, inner)

def framelooplist(s, NF, norm, perframe, seen):
    fr = set()
    for L, lp in s.loops.items():
        T_ = norm(lp.T) if lp.T is not None else None
        if T_ is not None and mentions(T_, lambda y: y == NF) or T_ is None and mentions(norm(lp.cond), lambda y: y == NF) or L in perframe: fr.add(L)
    return fr

def ownframe(t, reads, F):
    """reads of the block's input at the written frame become names; (term, first read elsewhere)"""
    m = {}; odd = None
    for y in [t] + list(subterms(t)):
        if y[0] == 'sel' and y[1] in reads:
            i = y[2][-1]
            if i == F: m[y] = ('in', P('%s(%s)' % (show(y[1]), show(y[2]))))
            elif odd is None: odd = (y, i)
    return subst(t, m), odd

def cmp(ctx, a, b, guard, more=()):
    """True / False / None"""
    N = {}
    def name(t):
        if t in N: return N[t]
        o = t[0]
        if o in ('lo', 'phi'): r = ('in', P('%s_%d_%s%s' % (o, t[1], '_'.join(str(z) for z in t[2]), '#size' if intlike(t) else '')))
        elif o in ('in', 'int', 'flt', 'bool', 'str', 'null'): r = t
        elif o == 'kap': r = ('in', P('kap%d#size' % t[1]))
        else:
            m = {x: name(x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)}
            r = T.rebuild(o, tuple(m.get(x, x) if isinstance(x, tuple) else x for x in t[1:]))
        N[t] = r; return r
    INT = set()
    def intlike(t): return 'Frames' in str(t[2]) or 'Index' in str(t[2]) or 'pos' in str(t[2]).lower()
    a, b, g = name(a), name(b), name(and_(guard, *more))
    if a == b: return True
    k = 'b' if a[0] in ('lt', 'le', 'eq', 'and', 'or', 'not', 'bool', 'feq') else 'n'
    r = sem.compare(a, b, None, n=300, seed=ctx.seed, want=k, guard=g, special=SZ)
    if r == 'eq': return True
    return False if r[0] == 'ne' else None

def automation(ctx):
    """DSP::processWithEnvelopes renders exactly the block's frames of automation"""
    rec = ctx.rec('hart::DSP'); f = ctx.method(rec, 'processWithEnvelopes')
    s = ctx.run(f, None, [IN, OUT], this=P('dsp')[0])
    evs = [e for e in s.log if e.kind == 'icall' and e.q == 'hart::Envelope::renderNextBlock' and e.pc != FALSE]
    if not evs: ctx.unk('automation', f, 'automation is not rendered here'); return
    for e in evs:
        t = e.args[0]
        if t == FIN or t == FOUT: ctx.ok('automation', e, 'automation advances by the frames of the block'); continue
        r = compare(t, FIN, None, n=300, seed=ctx.seed, special=SZ, guard=eq(FIN, FOUT))
        (ctx.ok if r == 'eq' else ctx.bad if r[0] == 'ne' and pure(t) else ctx.unk)('automation', e, 'automation advances by %s frames per block' % clip(show(t), 100))
