"""The public check methods are summarised: a check is put on the list that process() judges block by block only for the
'True' forms and only when its own matcher's canOperatePerBlock() says so. In the summary of process(), a list judged inside
the block loop gets, in every block, that block's freshly processed output; any other list is judged after the block loop,
once, on the buffer that accumulated every processed block. Each list's matchers are all prepared and reset beforehand. PeaksAt, which is about the loudest sample of the whole signal, never asks to be judged per block."""
from .common import *
from .proc import *

def check(ctx):
    ctx.guard('checks', 'process()', one, ctx)
    ctx.guard('whole', 'PeaksAt', wholeonly, ctx)

def wholeonly(ctx):
    rec = ctx.rec('hart::PeaksAt'); m = ctx.method(rec, 'canOperatePerBlock', 0); s = ctx.run(m, rec, [])
    ctx.must('whole', m, s.ret == FALSE if s.ret is not None and isconst(s.ret) else None, 'a peak level is a fact about the whole signal: PeaksAt never operates per block')

def blockloop(ctx):
    A = accum(ctx)
    if len(A.proc) != 1 or len(A.proc[0].loops) != 1: raise Missing('the one place where the tested effect processes blocks')
    return A.proc[0].loops[0]

def one(ctx):
    c = checks(ctx); s = c.s; A = accum(ctx); B = blockloop(ctx); p = A.proc[0]
    byl = {}
    for e, v, k in c.events: byl.setdefault(v, []).append((e, k))
    kind = {}
    for v, es in byl.items():
        inb = {B in e.loops for e, k in es}
        if len(inb) == 1: kind[v] = 'block' if True in inb else 'whole'
        else: ctx.bad('evaluation', es[0][0], '%s: the same checks are judged both per block and on the whole signal' % showloc(v))
    fx = {f['id'] for f, ss, ps in c.rows}
    for f, ss, ps in c.rows:
        can = [e for e in ss.log if e.kind == 'icall' and e.n == 'canOperatePerBlock']
        for e in ps:
            for v, g in locs_(e.vec, e.pc):
                v2 = (OBJ + v[1:]) if v[:1] == ('this',) else v
                k = kind.get(v2)
                if k is None: ctx.unk('lists', e, '%s: checks on %s are never judged' % (f['n'], showloc(v2))) if v2 not in byl else None; continue
                if k == 'whole': ctx.ok('lists', e, '%s may put a check on the whole-signal list' % f['n']); continue
                if sem.implies(g, FALSE): continue
                if not f['n'].endswith('True'): ctx.bad('lists', e, '%s puts a check on the list judged block by block when %s' % (f['n'], clip(show(g)))); continue
                vals = elvals(ss, e)
                good = [x for x in can if sem.implies(g, ('ev', x.id, x.n))]
                if not good:
                    own = concrete(ctx, f)
                    if own is not None and own.ret is not None and isconst(own.ret):
                        ctx.must('lists', e, own.ret == TRUE, '%s: judged block by block, the class says %s' % (f['n'], show(own.ret))); continue
                if not good: (ctx.bad if pureguard(g) else ctx.unk)('lists', e, '%s: judged block by block without regard to canOperatePerBlock() (when %s)' % (f['n'], clip(show(g)))); continue
                own = [x for x in good if any(x.this and x.this[0] == 'deref' and x.this[1] == mv or x.this == (('deref', mv),) or x.this == ('loc', mv) for mv in vals.values()) or x.this in [y[1] for y in vals.values() if y[0] == 'addr']]
                ctx.must('lists', e, True if own or x_same(good, vals) else None, '%s: block by block only if its own matcher can operate per block' % f['n'])
    for v, k in kind.items():
        for e, ix in byl[v]:
            lab = '%s (%s)' % (showloc(v), k)
            bufs = [(a[1], e.snap[j]) for j, a in enumerate(e.args) if a[0] == 'loc' and j in e.snap and '#s' in e.snap[j]]
            if len(bufs) != 1: ctx.unk('evaluation', e, '%s: judged buffer not identified' % lab); continue
            b, snap = bufs[0]
            if k == 'block':
                if len(e.loops) != 2: ctx.unk('evaluation', e, '%s: not one loop over checks per block' % lab); continue
                outs = [j for j, a in enumerate(p.args) if a[0] == 'loc' and j in p.snap and '#s' in p.snap[j]]
                want = ('evout', p.id, outs[1])
                ctx.must('evaluation', e, True if snap['#s'] == want else (False if understood(snap['#s']) else None), '%s: judged on the block the effect has just produced' % lab)
                ctx.must('evaluation', e, e.id > p.id, '%s: judged after processing' % lab)
            else:
                if len(e.loops) != 1: ctx.bad('evaluation', e, '%s: judged more than once' % lab) if any(s.loops[l].T != ONE for l in e.loops[:-1]) else None
                kd = A.kind(b)
                ctx.must('evaluation', e, True if kd == 'out' else (False if kd in ('in', 'raw') or snap['#s'] == ('evout', p.id, 1) or b not in A.kinds and understood(snap['#s']) else None), '%s: judged on the accumulated output signal' % lab)
                if kd == 'out':
                    full = A.complete(e, b)
                    ctx.must('evaluation', e, full, '%s: judged after the last block was added' % lab)
            # prepared and reset before
            for what in ('prepare', 'reset'):
                ctx.guard('prepared', lab, prepared, ctx, c, v, e, what, lab)

def concrete(ctx, f):
    """what canOperatePerBlock() of the matcher class this check method was called with says"""
    rec = ctx.prog.recs[ctx.prog.strip(f['params'][0]['t'])['rid']]
    m = ctx.method(rec, 'canOperatePerBlock', 0, req=False)
    return ctx.run(m, rec, []) if m is not None and not rec['q'].endswith('::Matcher') else None

def x_same(good, vals):
    """the matcher asked is the one stored"""
    for x in good:
        t = x.this
        for mv in vals.values():
            if mv[0] in ('addr',) and mv[1] == t: return True
            if any(y == mv or mv[0] == 'addr' and y == mv[1] for y in subterms_any(t)): return True
    return False
def subterms_any(t):
    out = [t]
    for x in subterms(t): out.append(x)
    return out

def pureguard(g): return all(x[0] in ('in', 'bool', 'ev') for x in sem.atoms(g))
def understood(t): return t[0] in ('evout', 'in', 'constarr', 'lo', 'append')
def locs_(l, pc):
    if l and l[0] == 'lite': return locs_(l[2], and_(pc, l[1])) + locs_(l[3], and_(pc, not_(l[1])))
    return [(l, pc)]

def sameelem(e, v):
    """the element of list v this call is made on: loop index, or None"""
    t = e.this
    if t and isinstance(t[0], tuple) and t[0][0] == 'deref' and t[0][1][0] == 'sel' and t[0][1][1][0] == 'in' and t[0][1][1][1][:len(v) + 1] == v + (('[]',),): return t[0][1][2][1]
    return None

def prepared(ctx, c, v, e, what, lab):
    s = c.s; size = ('in', v + ('#size',))
    evs = [x for x in s.log if x.kind == 'icall' and x.n == what and x.q.startswith('hart::Matcher::') and sameelem(x, v) is not None and x.id < e.id]
    whatl = '%s: every matcher is %s before it sees audio' % (lab, {'prepare': 'prepared', 'reset': 'reset'}[what])
    if not evs:
        oth = [x for x in s.log if x.kind == 'icall' and x.n == what and x.q.startswith('hart::Matcher::') and all(sameelem(x, w) is None for w in c.vecs)]
        (ctx.unk if oth else ctx.bad)('prepared', e, whatl); return
    for x in evs:
        if len(x.loops) != 1: continue
        L = x.loops[0]; lp = s.loops[L]
        if L == e.loops[0]: continue
        if sameelem(x, v) == ('kap', L) and lp.T == size and x.pc == TRUE and lp.pc == TRUE and lp.exitcond == FALSE: ctx.ok('prepared', x, whatl); return
    x = evs[0]
    lp = s.loops[x.loops[0]] if x.loops else None
    if lp is not None and x.loops[0] != e.loops[0] and (x.pc != TRUE and sem.models and free(x.pc) or lp.T is not None and lp.T != size and isnum(sub(lp.T, size))): ctx.bad('prepared', x, whatl + ' (only when %s, %s of %s)' % (clip(show(x.pc)), show(lp.T) if lp.T else '?', show(size)))
    else: ctx.unk('prepared', x, whatl)
def free(pc): return all(a[0] in ('in', 'sel', 'eq', 'lt') and not any(y[0] in ('phi', 'lo', 'exists') for y in subterms(a)) for a in sem.atoms(pc)) and not sem.implies(TRUE, pc)
