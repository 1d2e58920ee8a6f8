"""TestRegistry::add is summarised once per task kind: it stores the given name and function in exactly one new
element at the end of that kind's list unless the name is already in that kind's own name set, in which case it
raises; the two kinds share neither list nor set. The registration macros reach the list of their kind. In the runner's
summary, for each value of the generator flag, one loop with a task body call runs over exactly that kind's list: trip count
equal to its size, element index equal to the iteration number, unconditional, no early exit; the list is changed
beforehand only by a whole-range std::shuffle under the shuffle flag."""
from .common import *
from .host import *

def check(ctx):
    ctx.guard('registration', 'hart::TestRegistry::add', reg, ctx)

def addinfo(ctx, catname):
    rec = ctx.rec('hart::TestRegistry'); f = ctx.method(rec, 'add', 4)
    cat = num(enumval(ctx, 'hart::TaskCategory::' + catname))
    args = []
    for i, p in enumerate(f['params']):
        t = ctx.prog.strip(p['t'])
        if t['k'] == 'enum': args.append(cat)
        elif ctx.prog.ty(p['t'])['k'] in ('ref', 'rref'): args.append(P('a%d' % i))
        else: args.append(('in', P('a%d' % i)))
    s = ctx.run(f, rec, args)
    ps = [e for e in s.log if e.kind == 'push' and e.pc != FALSE]
    return f, s, ps, args

def reg(ctx):
    info = {}
    for cat in ('test', 'generate'):
        f, s, ps, args = addinfo(ctx, cat)
        name = ('in', P('a0'))
        fn = ('in', P('a3'))
        if not ps: ctx.bad('registration', f, 'add() stores nothing for kind %s' % cat); return
        th = or_(*[t[0].pc for t in s.throws]) if s.throws else FALSE
        hs = [x for x in subterms(th) if x[0] == 'has' and x[2] == name] or [x for a in s.st.asm for x in subterms(a) if x[0] == 'has' and x[2] == name]
        ins = [e for e in s.log if e.kind == 'mapinsert' and e.pc != FALSE]
        if not hs: ctx.unk('registration', f, 'duplicate test of kind %s not found' % cat) if ins and (th != FALSE or s.st.asm or [e for e in s.log if e.kind == 'call']) else ctx.bad('registration', f, 'no duplicate test for kind %s' % cat); setkey = None
        else:
            ctx.gsame('registration', f, th, hs[0], TRUE, 'a duplicate name of kind %s is refused' % cat)
            setkey = hs[0][1]
            after = s.st.store.get(setkey[1] if setkey[0] == 'in' else None)
            if after is not None: ctx.must('registration', f, True if sel(after, ('ix', name)) == TRUE else None, 'the name is remembered for kind %s' % cat)
            else: ctx.must('registration', f, False if not [e for e in ins if e.key == name] else None, 'the name is remembered for kind %s' % cat)
        vecs = {}
        for e in ps: vecs.setdefault(e.vec, []).append(e)
        lists = {}
        for v, es in vecs.items():
            if v[0] == 'lite': ctx.unk('registration', f, 'list chosen by a condition'); return
            n = s.read(v + ('#size',)); d = sub(n, ('in', s.e.canon(v)[0] + ('#size',)) if not s.e.canon(v)[1] else s.e.read(v + ('#size',), State()))
            lists[v] = d
        good = [v for v, d in lists.items() if d == ONE]
        if len(lists) == 1 and good:
            ctx.ok('registration', ps[0], 'exactly one element is added for kind %s' % cat)
            v = good[0]; e = ps[0]
            vals = {}
            for w in s.log:
                if w.kind == 'write' and w.loc[:len(e.el)] == e.el: vals[w.loc[-1]] = w.val
            ctx.must('registration', e, True if fn in vals.values() else (False if vals and all(x[0] in ('in', 'str', 'int', 'null', 'fn') for x in vals.values()) else None), 'the given function is stored for kind %s' % cat)
            ctx.must('registration', e, True if name in vals.values() else (False if vals and all(x[0] in ('in', 'str', 'int', 'null', 'fn') for x in vals.values()) else None), 'the given name is stored for kind %s' % cat)
            ff = [k for k, x in vals.items() if x == fn]
            at = e.at
            info[cat] = (v, setkey, ff[0] if ff else None)
            z = ('in', s.e.canon(v)[0] + ('#size',)) if not s.e.canon(v)[1] else at
            ctx.must('registration', e, at == z or None, 'the new element is the last one for kind %s' % cat)
        elif all(isnum(d) for d in lists.values()):
            ctx.bad('registration', ps[0], 'add() adds %s elements for kind %s' % ({showloc(v): d[1] for v, d in lists.items()}, cat)); return
        else: ctx.unk('registration', ps[0], 'elements added: %s' % {showloc(v): show(d) for v, d in lists.items()}); return
    vt, st_, ft = info['test']; vg, sg, fg = info['generate']
    ctx.must('registration', 'TestRegistry::add', vt != vg, 'tests and generators are kept in separate lists')
    if st_ is not None and sg is not None: ctx.must('registration', 'TestRegistry::add', st_ != sg, 'names are unique within one kind, not across kinds')
    ctx.guard('macros', 'registration macros', macros, ctx, vt, vg)
    ctx.guard('runner', 'runner', run_, ctx, vt, vg, ft, fg)

def macros(ctx, vt, vg):
    n = 0; seen = {}
    for g in ctx.prog.globals.values():
        i = g.get('init')
        if not isinstance(i, dict) or i.get('k') != 'ctor' or 'driver' not in g.get('file', ''): continue
        f = ctx.prog.fns.get(i.get('fn'))
        if f is None or f.get('body') is None: continue
        s = ctx.run(f, ctx.prog.recs.get(f['cls']), [])
        ps = [e for e in s.log if e.kind == 'push']
        if not ps: continue
        names = [w.val[1] for w in s.log if w.kind == 'write' and w.val[0] == 'str' and w.val[1].startswith('vdrv')]
        if not names: continue
        n += 1
        want = vt if 'test' in names[0] else vg
        e = ps[0]
        fld = e.vec[-len(want) + 1:] if len(want) > 1 else e.vec
        ctx.must('macros', (f['file'], f['line']), len(ps) == 1 and e.vec[-(len(want) - 1):] == want[1:] and e.pc == TRUE or (None if e.vec[0] == 'lite' else False), "'%s' is registered once, in the list of its kind" % names[0])
        fs = [w.val for w in s.log if w.kind == 'write' and w.val[0] in ('fn', 'addr', 'lam', 'clo')]
        if fs:
            if fs[0] in seen: ctx.bad('macros', (f['file'], f['line']), 'two tasks share one function')
            seen[fs[0]] = 1
    if n < 4: ctx.unk('macros', 'registration macros', '%d of 4 registrations found' % n)

def run_(ctx, vt, vg, ft, fg):
    s = runner(ctx)
    bs = bodies(s)
    if not bs: raise Missing('task body call')
    flag = optval(option(s, '--run-generators')); shuf = optval(option(s, '--shuffle'))
    reg = None
    for e in s.log:
        for x in subterms(('t', e.pc) if e.kind != 'indirect' else ('t', e.f, e.pc)):
            if x[0] == 'in' and x[1][-1] == vt[-1] or x[0] == 'in' and len(x[1]) > 1 and '#size' in x[1] and x[1][-2] == vt[-1]: reg = x[1][:1] if isinstance(x[1][0], tuple) and x[1][0][0] == 'static' else reg
    for kind, v, fld, fl in (('test', vt, ft, not_(flag)), ('generate', vg, fg, flag)):
        base = parsed(s) + [fl, not_(shuf)]
        runs = []; unread = 0
        for e, lp in bs:
            F = Facts(base)
            arrs = [x for x in subterms(e.f) if x[0] == 'in' and '#size' not in x[1]]
            f = F.simp(e.f)
            def mine(t): return mentions(t, lambda x: x[0] == 'in' and isinstance(x[1], tuple) and v[-1] in x[1])
            pc = F.simp(and_(lp.pc, e.pc)) if lp is not None else F.simp(e.pc)
            if pc == FALSE: continue
            if not mine(f):
                other = vg if v == vt else vt
                if mentions(f, lambda x: x[0] == 'in' and isinstance(x[1], tuple) and other[-1] in x[1]):
                    ctx.bad('selection', e, 'a %s run executes tasks of the other kind when %s' % (kind, clip(show(pc))))
                else: ctx.unk('selection', e, 'task function is %s' % show(f)); unread += 1
                continue
            runs.append((e, lp, f, pc))
        if not runs:
            if unread: ctx.unk('selection', bs[0][0], 'no loop recognised as running the tasks of kind %s' % kind)
            else: ctx.bad('selection', bs[0][0], 'no loop runs the tasks of kind %s' % kind)
            continue
        if len(runs) > 1: ctx.bad('selection', runs[1][0], 'tasks of kind %s are run by more than one loop' % kind); continue
        e, lp, f, pc = runs[0]
        if lp is None: ctx.unk('selection', e, 'not in a loop'); continue
        size = [x for x in subterms(f) if x[0] == 'in' and v[-1] in x[1]][0][1]
        sz = ('in', size[:size.index(v[-1]) + 1] + ('#size',))
        F = Facts(base + [not_(eq(ZERO, sz)), lt(ZERO, sz)])
        ctx.gsame('selection', e, F.simp(sem.norm(and_(lp.pc, e.pc))), TRUE, TRUE, 'every task of kind %s is run' % kind, free=lambda x: True)
        if len(e.loops) > 1: ctx.bad('selection', e, 'the tasks of kind %s are run inside another loop' % kind)
        T_ = F.simp(lp.T) if lp.T is not None else None
        ctx.must('selection', (lp.file, lp.line), None if T_ is None else (True if T_ == sz else (False if isnum(sub(T_, sz)) else None)), 'the loop makes one iteration per task of kind %s%s' % (kind, '' if T_ == sz else ': %s iterations' % (show(T_) if T_ else 'an unknown number of')))
        ctx.must('selection', e, lp.exitcond == FALSE, 'the loop over tasks of kind %s is never left early' % kind)
        idx = f[2] if f[0] == 'sel' else None
        want = ('ix', ('kap', lp.L))
        ctx.must('selection', e, None if idx is None else (True if idx == want else (False if not any(x[0] in sem.OPAQUE for x in subterms(idx)) else None)), 'task bodies are called in registration order (kind %s)%s' % (kind, '' if idx == want else ': element %s in iteration k' % (show(idx[1]) if idx else '?')))
        if f[0] == 'sel' and fld is not None: ctx.must('selection', e, f[1][0] == 'in' and f[1][1][-1] == fld or None, 'the stored function is what is called (kind %s)' % kind)
    # changes to the lists before or during the run
    for e in s.log:
        if e.kind in ('push', 'vclear', 'vresize', 'vmess', 'vassign') and any(x in e.vec for x in (vt[-1], vg[-1])):
            ctx.bad('selection', e, 'the run changes the list %s' % showloc(e.vec))
        if e.kind == 'write' and any(x in e.loc for x in (vt[-1], vg[-1])) and '#size' not in e.loc:
            ctx.unk('selection', e, 'the run writes to the list %s' % showloc(e.loc))
        if e.kind == 'call':
            ptrs = [p for a in e.args if isinstance(a, tuple) for c, p in sem.cases(a) if p[0] == 'ptr' and any(x in p[1] for x in (vt[-1], vg[-1]))] if all(isinstance(a, tuple) for a in e.args) else []
            if not ptrs: continue
            if e.n in ('shuffle', 'random_shuffle'):
                ok = True
                for fl in (flag, not_(flag)):
                    F = Facts(parsed(s) + [fl, shuf])
                    a, b = F.simp(e.args[0]), F.simp(e.args[1])
                    v = vg if fl == flag else vt
                    if not (a[0] == 'ptr' and b[0] == 'ptr'): ok = None
                    else:
                        n = sub(b[2], a[2])
                        if a[1][-1] != v[-1]: ok = False
                        else:
                            size = ('in', a[1] + ('#size',))
                            if isnum(a[2]) and a[2] != ZERO or isnum(sub(n, size)) and n != size: ok = False
                            elif a[2] != ZERO or n != size: ok = None if ok else ok
                        F2 = Facts(parsed(s) + [fl, not_(eq(ZERO, n)), lt(ZERO, n)])
                        ctx.gsame('shuffle', e, F2.simp(sem.norm(e.pc)), shuf, TRUE, 'the list is shuffled only when asked')
                ctx.must('shuffle', e, ok, 'the whole list of the kind being run is permuted')
            else: ctx.unk('shuffle', e, 'the list is passed to %s' % e.q)
