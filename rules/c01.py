"""The test runner's main body (HART_RUN_ALL_TESTS, inlined through TestRegistry) is summarised as guarded
terms with the task bodies as opaque calls that may raise any exception and record any number of failed
expectations. Per loop that calls a task body: the counter behind the exit status must step exactly when
the body raised a standard exception or the number of recorded expectations after it is positive; that
condition must not mention state carried over from earlier tasks; the words 'failed'/'passed' are printed under
exactly these conditions; neither an early exit nor an escaping standard exception ends the loop; the exit status is
zero for no failures and non-zero in its low 8 bits for any other count. The failing macros are summarised the
same way: they raise or record exactly under the negation of their argument."""
import re
from .common import *
from .host import *

def check(ctx):
    ctx.guard('verdict', 'hart::TestRegistry', tasks, ctx)
    for n, f in (('vdrv::macroAssert', m_assert), ('vdrv::macroExpect', m_expect), ('vdrv::macroFail', m_fail), ('vdrv::macroFailMsg', m_fail), ('vdrv::dataPath', m_path)):
        ctx.guard('macro', n, f, ctx, n)

def steps(s, L):
    """counters stepped in loop L: key -> list of (condition, step)"""
    lp = s.loops[L]; out = {}
    for key, (init, nxt) in lp.phis.items():
        phi = ('phi', L, key); l = []
        for c, v in sem.cases(nxt):
            try: d = sub(v, phi)
            except Exception: d = None
            if d is None or d[0] != 'int': l = None; break
            l.append((c, d[1]))
        if l: out[key] = l
    for key, (init, d) in getattr(lp, 'ivs', {}).items():
        if d[0] == 'int': out[key] = [(TRUE, d[1])]
    return out

def tasks(ctx):
    s = runner(ctx)
    bs = bodies(s)
    if not bs: raise Missing('task body call')
    fails = {}; passes = {}; exists_ok = set()
    for e, lp in bs:
        if lp is None: ctx.unk('verdict', e, 'task body is not called from a loop'); continue
        L = lp.L; F = fail_of(e); facts = only_std(e, None)
        leak = lambda x, L=L: mentions(x, lambda y: y[0] == 'phi' and y[1] == L)
        cs = steps(s, L)
        for key, l in cs.items():
            inc = or_(*[c for c, d in l if d == 1]); bad = [d for c, d in l if d not in (0, 1) and c != FALSE]
            if mentions(s.ret, lambda x: x == ('lo', L, key)) or mentions(s.ret, lambda x: x == ('kn', L)):
                pass
            fails[(L, key)] = (e, inc, F, facts, bad, leak)
        # reports
        for word, want in (('failed', F), ('passed', not_(F))):
            got = FALSE; n = 0
            for o in s.log:
                if o.kind != 'out' or not o.loops or o.loops[-1] != L: continue
                for c, t in strings(o.val):
                    if re.search(r'\b%s\b' % word, t, re.I): got = or_(got, and_(o.pc, c)); n += 1; w = o
            if not n: ctx.unk('report', e, "no '%s' text found in the loop" % word); continue
            ctx.gsame('report', w, got, want, facts, "'%s' is reported" % word, free=leak)
        # nothing stops the loop
        if lp.exitcond == FALSE: ctx.ok('all tasks run', e, 'no early exit from the loop over tasks')
        else: ctx.bad('all tasks run', (lp.file, lp.line), 'the loop over tasks is left early when %s' % clip(show(lp.exitcond)))
        esc = FALSE
        for t in s.throws:
            for x in subterms(t[0].pc):
                if x[0] == 'exists' and x[1] == L: esc = or_(esc, x[2])
        ctx.gsame('all tasks run', e, esc, FALSE, facts, 'a standard exception from a task escapes the runner')
    # exit status
    ret = Facts([not_(('throws', i)) for i in {x[1] for x in subterms(s.ret) if x[0] == 'throws'}]).simp(s.ret)
    los = [x for x in subterms(ret) if x[0] == 'lo']
    exs = [x for x in subterms(ret) if x[0] == 'exists']
    kind = {}
    where = bs[0][0]
    for x in los:
        L, key = x[1], x[2]
        if (L, key) not in fails: ctx.unk('exit status', where, 'depends on %s' % show(x)); return
        e, inc, F, facts, bad, leak = fails[(L, key)]
        r1 = sem.guardcmp(inc, F, facts, ctx.seed, None, leak); r2 = sem.guardcmp(inc, not_(F), facts, ctx.seed, None, leak)
        k = 'failed' if (r1 == 'eq') else 'passed' if r2 == 'eq' else None
        if k is None:      # decide by name which of the two it was meant to be only for the message
            w = F if r1[0] == 'ne' else None
            if r1[0] == 'ne' and r2[0] == 'ne':
                ctx.bad('verdict', e, '%s counts a task when %s, should be when it failed: %s' % (showloc(key), clip(show(inc)), clip(show(F)))); return
            ctx.unk('verdict', e, 'counter %s: %s' % (showloc(key), clip(show(inc)))); return
        if bad: ctx.bad('verdict', e, '%s is changed by %s in one task' % (showloc(key), bad)); return
        kind[x] = k
        ctx.ok('verdict', e, '%s counts exactly the %s tasks' % (showloc(key), k))
    for x in exs:
        L, p = x[1], x[2]
        m = [(e, lp) for e, lp in bs if lp is not None and lp.L == L]
        if not m: ctx.unk('exit status', where, show(x)); return
        ctx.gsame('verdict', m[0][0], p, fail_of(m[0][0]), only_std(m[0][0], None), 'task makes the run fail', free=lambda y: mentions(y, lambda z: z[0] == 'phi' and z[1] == L))
    sizes = [x for x in subterms(ret) if x[0] == 'in' and x[1][-1] == '#size']
    import itertools
    flags = [a for a in {y for y in subterms(ret) if y[0] in ('evout',) or (y[0] == 'in' and y[1][-1] != '#size')}]
    decided = True
    for n, k in ((1, 0), (1, 1), (2, 1), (3, 0), (300, 255), (300, 256), (300, 1), (600, 512), (1000, 0), (70000, 65536), (300, 300)):
        for fl in itertools.product((FALSE, TRUE), repeat=min(len(flags), 4)):
            m = {x: num(k if kind[x] == 'failed' else n - k) for x in los}
            m.update({x: num(n) for x in sizes}); m.update(dict(zip(flags, fl))); m.update({x: num(k > 0) for x in exs})
            v = subst(ret, m)
            if v[0] not in ('int', 'bool', 'flt'): decided = False; ctx.unk('exit status', where, clip(show(v))); break
            z = int(v[1]) & 0xff
            if (z != 0) != (k > 0):
                ctx.bad('exit status', where, 'the run returns %s (exit status %s) when %s of %s tasks failed' % (v[1], z, k, n)); return
        if not decided: break
    if decided: ctx.ok('exit status', where, 'zero exactly for no failed task; evaluated for counts up to 65536 of 70000')
    # printed totals
    outs = [o for o in s.log if o.kind == 'out' and not o.loops]
    last = None
    for o in outs:
        t = ' '.join(x for c, x in strings(o.val))
        if re.search(r'\bPASSED\b', t): last = 'passed'
        elif re.search(r'\bFAILED\b', t): last = 'failed'
        v = [x for x in subterms(o.val) if x[0] == 'lo']
        if last and o.tkind == 'int' and v and any((x[1], x[2]) not in fails for x in v): ctx.unk('totals', o, show(o.val)); last = None; continue
        if last and o.tkind == 'int' and v and (o.val in v or o.val[0] == 'ite'):
            ks = {kind[x] if x in kind else classify(ctx, fails[(x[1], x[2])]) for x in v}
            if None in ks: ctx.unk('totals', o, show(o.val)); last = None; continue
            ctx.must('totals', o, ks == {last}, 'the number printed as %s counts %s tasks' % (last.upper(), '/'.join(ks))); last = None
    # counters start at zero
    reg = ctx.rec('hart::TestRegistry')
    for c in ctx.ctors(reg):
        if ctx.iscopy(reg, c): continue
        r = ctx.run(c, reg, [])
        for x in kind:
            v = r.st.store.get(('this', x[2][-1]))
            if v is not None: ctx.must('verdict', c, v == ZERO if isnum(v) else None, 'counter %s starts at %s' % (x[2][-1], show(v)))

def classify(ctx, rec):
    e, inc, F, facts, bad, leak = rec
    r1 = sem.guardcmp(inc, F, facts, ctx.seed, None, leak); r2 = sem.guardcmp(inc, not_(F), facts, ctx.seed, None, leak)
    if bad: return 'not exactly'
    if r1 == 'eq': return 'failed'
    if r2 == 'eq': return 'passed'
    return 'not exactly' if r1[0] == 'ne' and r2[0] == 'ne' else None

def strings(v, c=TRUE):
    if v[0] == 'str': yield c, v[1]
    elif v[0] == 'ite':
        yield from strings(v[2], and_(c, v[1])); yield from strings(v[3], and_(c, not_(v[1])))
    elif v[0] in ('cat', 'fmt'):
        for x in v[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str): yield from strings(x, c)

def raising(ctx, s):
    """condition under which the summary raises, and the types raised"""
    return or_(*[t[0].pc for t in s.throws]) if s.throws else FALSE, {t[1] for t in s.throws}
def recorded(s):
    return or_(*[p.pc for p in s.log if p.kind == 'push' and isinstance(p.vec[0], tuple) and p.vec[0][0] in ('static', 'global')] or [FALSE])

def m_assert(ctx, n):
    f = ctx.func(n); c = ('in', P('c'))
    s = ctx.run(f, None, [c])
    g, ty = raising(ctx, s)
    ctx.gsame('macro', f, g, not_(c), TRUE, 'HART_ASSERT_TRUE raises')
    for t in ty: ctx.must('macro', f, t == 'hart::TestAssertException', 'HART_ASSERT_TRUE raises %s' % t)
    ctx.gsame('macro', f, recorded(s), FALSE, TRUE, 'HART_ASSERT_TRUE records an expectation')
def m_expect(ctx, n):
    f = ctx.func(n); c = ('in', P('c'))
    s = ctx.run(f, None, [c])
    ctx.gsame('macro', f, raising(ctx, s)[0], FALSE, TRUE, 'HART_EXPECT_TRUE raises')
    ctx.gsame('macro', f, recorded(s), not_(c), TRUE, 'HART_EXPECT_TRUE records a failed expectation')
    k = [x for x in s.log if x.kind == 'push']
    if k:
        sz = s.read(k[0].vec + ('#size',))
        r = sem.guardcmp(lt(('in', s.e.canon(k[0].vec)[0] + ('#size',)), sz), not_(c))
        if r[0] == 'ne': ctx.bad('macro', f, 'the failed expectation does not stay recorded')
def m_fail(ctx, n):
    f = ctx.func(n); s = ctx.run(f, None, [])
    g, ty = raising(ctx, s)
    ctx.gsame('macro', f, g, TRUE, TRUE, '%s raises' % n)
    for t in ty: ctx.must('macro', f, t == 'hart::TestAssertException', '%s raises %s' % (n, t))
def m_path(ctx, n):
    f = ctx.func(n); s = ctx.run(f, None, [])
    g, ty = raising(ctx, s)
    root = ctx.run(ctx.method(ctx.rec('hart::CLIConfig'), 'getDataRootPath', 0), ctx.rec('hart::CLIConfig'))
    v = root.ret if root.ret[0] not in ('loc', 'obj') else root.read(root.ret[1])
    # the same field of the singleton
    fld = [x for x in subterms(v) if x[0] == 'in']
    for t in ty: ctx.must('macro', f, ctx.prog is not None and 'std::exception' in sem.HIER.get(t, ()) or None, 'HART_REQUIRES_DATA_PATH_ARG raises %s' % t)
    if g == FALSE or g == TRUE: ctx.bad('macro', f, 'HART_REQUIRES_DATA_PATH_ARG raises %s' % ('always' if g == TRUE else 'never')); return
    at = sem.atoms(g)
    if len(at) == 1 and at[0][0] in ('empty', 'eq') and any(x[0] == 'in' and fld and x[1][-1] == fld[0][1][-1] for x in subterms(at[0])):
        ctx.must('macro', f, g == at[0], 'HART_REQUIRES_DATA_PATH_ARG raises when %s' % show(g))
    else: ctx.unk('macro', f, 'HART_REQUIRES_DATA_PATH_ARG raises when %s' % show(g))
