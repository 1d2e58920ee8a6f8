"""The public check methods are summarised: each stores one element whose severity and polarity fields hold what its name
says. process() is summarised as a whole and a finite fixpoint over its loop recurrences (history flags: a check failed,
an assert check failed, read off the match calls) decides for every reachable combination: a check that has not failed is
evaluated as long as no assert check failed, failing means the answer differs from the polarity, a failed check is marked
and not evaluated or reported again, a failed expect check appends exactly one message to the list of failed expectations,
loops over checks are left early only after a failed assert check, and TestAssertException leaves process() exactly when
an assert check failed."""
from .common import *
from .proc import *

AF = ('ghost', 'afail')

def check(ctx):
    ctx.guard('public methods', 'expectTrue .. assertFalse', methods, ctx)
    ctx.guard('evaluation', 'process()', evaluation, ctx)

def methods(ctx):
    c = checks(ctx)
    names = {f['id']: f for f, ss, ps in c.rows}
    for what, role, pos in (('severity', c.level, lambda n: n.startswith('assert')), ('polarity', c.want, lambda n: n.endswith('True'))):
        for fid, f in names.items():
            ctx.must('public methods', f, fid not in role[2], '%s stores the %s its name says' % (f['n'], what))
    for f, ss, ps in c.rows:
        some = or_(*[e.pc for e in ps])
        ctx.gsame('public methods', f, some, TRUE, TRUE, '%s adds a check in every case' % f['n'])
        for i in range(len(ps)):
            for j in range(i):
                if not sem.implies(and_(ps[i].pc, ps[j].pc), FALSE): ctx.bad('public methods', ps[i], '%s adds two checks' % f['n'])

def agree(a, b): return or_(and_(a, b), and_(not_(a), not_(b)))

def flag(c, v, L):
    """the 'already failed' flag of a check: (key, condition that element k is marked before this iteration, its new value)"""
    for (vv, fld), Ls in c.skips().items():
        if vv != v or L not in Ls: continue
        key = v + (('[]',), fld)
        # value it is given before the test runs
        init = None
        for l in sorted(Ls):
            i, n = c.s.loops[l].phis[key]
            b = i
            while b[0] in ('upd', 'store'):
                val = b[4] if b[0] == 'upd' else b[3]
                if isconst(val): init = val; break
                b = b[1]
            if init is not None: break
        if init is None:
            fv = {x for f, ss, ps in c.rows for e in ps for k, x in elvals(ss, e).items() if k == fld}
            if len(fv) == 1 and isconst(next(iter(fv))): init = next(iter(fv))
        return key, init
    return None

def evaluation(ctx):
    c = checks(ctx); s = c.s
    B = c.abs(); notes = {}
    msgs = None
    g = ctx.func('hart::ExpectationFailureMessages::get', req=False)
    if g is not None:
        r = ctx.run(g, None, []).ret
        msgs = r[1] if r[0] in ('loc', 'obj') else None
    perloop = {}
    for e, v, k in c.events: perloop.setdefault(e.loops, []).append((e, v, k))
    skipargs = []
    for n, (loops, evs) in enumerate(perloop.items()):
        if not loops: ctx.unk('evaluation', evs[0][0], 'a match call outside any loop over checks'); continue
        L = loops[-1]; lp = s.loops[L]; e, v, k = evs[0]
        lab = '%s (%s)' % (showloc(v), 'block by block' if len(loops) > 1 else 'whole signal')
        if len(evs) > 1: ctx.unk('evaluation', e, 'several match calls in one loop'); continue
        # every element is visited
        size = ('in', v + ('#size',))
        full = k == ('kap', L) and lp.T == size and lp.brk == FALSE and lp.exitcond == lp.ret or k == ('kap', L) and lp.T == size
        if full: ctx.ok('evaluation', e, '%s: the loop visits every check' % lab)
        elif lp.T is not None and k[0] in ('kap', 'add') and isnum(sub(lp.T, size)): ctx.bad('evaluation', e, '%s: the loop visits %s of %s checks, element %s first' % (lab, show(lp.T), show(size), show(k)))
        else: ctx.unk('evaluation', e, '%s: which checks the loop visits is not understood (%s of %s)' % (lab, show(lp.T) if lp.T else '?', show(k)))
        B.oblige((n, 'exit'), L, 1e9, or_(not_(lp.exitcond), AF))
        notes[(n, 'exit')] = (e, '%s: left early only after a failed assert check' % lab)
        for i, l in enumerate(loops):
            par = loops[i - 1] if i else None
            B.oblige((n, 'reach%d' % i), par, B.nid[l] - .5, or_(s.loops[l].pc, AF))
            notes[(n, 'reach%d' % i)] = (e, '%s: reached unless an assert check failed' % lab)
            if i < len(loops) - 1:
                B.oblige((n, 'outer%d' % i), l, 1e9, or_(not_(s.loops[l].exitcond), AF))
                notes[(n, 'outer%d' % i)] = (e, '%s: the surrounding loop is left early only after a failed assert check' % lab)
        mm = c.mismatch(e, v, k)
        fl = flag(c, v, L)
        if fl is None:
            if len(loops) > 1:
                ps = [x for x in s.log if x.kind == 'push' and x.vec == msgs and x.loops == loops]
                rep = or_(*[x.pc for x in ps]) if ps else FALSE
                fixed = not any(y[0] in ('phi', 'lo', 'exists') and True for y in subterms(rep))
                first = {y: FALSE for y in subterms(rep) if y[0] == 'sel' and y[1][0] == 'in' and y[1][1][:len(v)] == v and y[1][1][-1] not in (c.level[0], c.want[0])}
                if ps and fixed and sem.implies(and_(mm, not_(c.isassert(v, k)), not_(subst(rep, first))), FALSE, and_(*c.facts(v, k)) if c.facts(v, k) else TRUE): ctx.bad('evaluation', e, '%s: a failed check is evaluated and reported again in every block' % lab)
                else: ctx.unk('evaluation', e, '%s: no mark on failed checks found' % lab)
            else:
                B.oblige((n, 'pc'), L, e.id - .1, or_(e.pc, AF)); notes[(n, 'pc')] = (e, '%s: every check is evaluated' % lab)
        else:
            key, init = fl
            cur = ('sel', ('phi', L, key), ('ix', k)) if key in lp.phis else sel(s.loops[L].phis.get(key, (('in', key),))[0], ('ix', k))
            if init is None: ctx.unk('evaluation', e, '%s: initial mark of checks not found' % lab); continue
            marked = lambda t: (not_(t) if init == TRUE else t) if init in (TRUE, FALSE) else not_(eq(t, init))
            if init not in (TRUE, FALSE): B.freearr.pop(key, None); ctx.unk('evaluation', e, '%s: marks are not boolean' % lab); continue
            if init == TRUE: B.freearr.pop(key, None); B.freearr[key] = 'any'; B.ghosts['any'] = True
            B.oblige((n, 'pc'), L, e.id - .1, or_(AF, agree(e.pc, not_(marked(cur)))))
            notes[(n, 'pc')] = (e, '%s: evaluated exactly until it first fails' % lab)
            nxt = lp.phis[key][1]
            nv = sel(nxt, ('ix', k))
            if len(loops) > 1: B.oblige((n, 'mark'), L, 1e9 - 1, or_(lp.exitcond, agree(marked(nv), or_(marked(cur), and_(e.pc, mm)))))
            if len(loops) > 1: notes[(n, 'mark')] = (e, '%s: marked exactly when it fails' % lab)
            other = [x for x in stores(nxt) if x != ('ix', k)]
            ctx.must('evaluation', e, True if not other else None, '%s: marks only the check just evaluated' % lab)
            # reset before the test
            i0 = lp.phis[key][0]; b = i0
            l0 = loops[0]
            if b[0] == 'phi' and key in s.loops[b[1]].phis: b = s.loops[b[1]].phis[key][0]
            el = sel(b, ('ix', ('in', P('anycheck'))))
            el = Facts([lt(('in', P('anycheck')), size)], [('in', P('anycheck'))]).simp(el)
            fresh = el == init
            if fresh: ctx.ok('evaluation', e, '%s: no check starts out marked' % lab)
            else:
                fv = {x for f, ss, ps in c.rows for ee in ps for kk, x in elvals(ss, ee).items() if kk == key[-1]}
                if b == ('in', key) and fv == {init}: ctx.ok('evaluation', e, '%s: checks are added unmarked' % lab)
                else: ctx.unk('evaluation', e, '%s: initial marks: %s' % (lab, clip(show(el))))
        # reports of failed expectations
        ps = [x for x in s.log if x.kind == 'push' and (msgs is None or x.vec == msgs) and x.loops[:1] == loops[:1] and L in x.loops and x.pc != FALSE]
        if [x for x in ps if x.loops != loops]: ctx.unk('reports', e, '%s: messages are added in a nested loop' % lab)
        elif not ps:
            other = [x for x in s.log if x.kind == 'push' and L in x.loops]
            (ctx.unk if other else ctx.bad)('reports', e, '%s: a failed expect check adds no failed expectation' % lab)
        else:
            B.oblige((n, 'push'), L, 1e9 - 2, or_(agree(or_(*[x.pc for x in ps]), and_(e.pc, mm, not_(c.isassert(v, k)))), and_(AF, not_(and_(e.pc, mm)), not_(or_(*[x.pc for x in ps])))))
            notes[(n, 'push')] = (ps[0], '%s: a failed expect check, and nothing else, adds one failed expectation' % lab)
            for i in range(len(ps)):
                for j in range(i):
                    B.oblige((n, 'push%d.%d' % (i, j)), L, 1e9 - 2, not_(and_(ps[i].pc, ps[j].pc))); notes[(n, 'push%d.%d' % (i, j))] = (ps[i], '%s: one message per failed check' % lab)
            after = {x.loops for x in s.log if x.kind == 'push' and x.vec == msgs and x.loops not in perloop}
            for x in s.log:
                if x.kind == 'push' and x.vec == msgs and x.loops not in perloop and x.pc != FALSE and n == 0: ctx.unk('reports', x, 'a message is added outside the loops over checks')
    thr = [t for t in s.throws if t[1].split('::')[-1] == 'TestAssertException' and t[0].pc != FALSE]
    fn = ctx.method(builder(ctx), 'process', 0)
    if not thr: ctx.bad('assertion', fn, 'process() never raises a failed assertion'); notes_t = None
    else:
        B.oblige('throw', None, 1e9, agree(or_(*[t[0].pc for t in thr]), AF)); notes['throw'] = (thr[0][5], 'TestAssertException leaves process() exactly when an assert check failed')
    # one question at a time, so that one that cannot be decided does not hide the others
    items = {L: list(x) for L, x in B.items.items()}
    for lab in notes:
        where, what = notes[lab]
        def one(lab=lab, where=where, what=what):
            b2 = c.abs(); b2.freearr = dict(B.freearr); b2.ghosts.update(B.ghosts)
            for L, xs in items.items():
                for x in xs:
                    if x[1] == 'oblige' and x[2] == lab: b2.oblige(lab, L, x[0], x[3])
            if 'any' in b2.ghosts: b2.ghost('any', None, -1, TRUE)
            try: b2.solve()
            except Giveup:
                b2.under = True
                for L in b2.want: b2.want[L] = []; b2.ex[L] = []; b2.exitat[L] = []
                try: b2.solve()
                except Giveup: pass
                if not b2.bad: raise
            if b2.bad: ctx.bad('evaluation', where, '%s; not so when %s' % (what, clip(sem.showmodel({(k if k[0] != 'ghost' else ('str', {'fail': 'a check failed before', 'afail': 'an assert check failed'}.get(k[1], k[1]))): v for k, v in b2.bad[0][1].items()}), 500)))
            elif not b2.checked[lab]: ctx.unk('evaluation', where, what + ' (never reached)')
            else: ctx.ok('evaluation', where, '%s (%d combinations)' % (what, b2.checked[lab]))
        ctx.guard('evaluation', where, one)

def stores(t):
    out = set()
    while True:
        if t[0] == 'ite': return out | stores(t[2]) | stores(t[3])
        if t[0] == 'store': out.add(t[2]); t = t[1]; continue
        if t[0] == 'upd': out.add(t[3]); t = t[1]; continue
        return out
