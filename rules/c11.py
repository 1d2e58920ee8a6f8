"""Objects that record being copied from, moved into or moved from are given to a test, a chain, an automation and a comparison in every
way the interface has; each way is summarised. What is given as an lvalue (constant or not, by its own type or its base) is copied
once and never written to, moved or kept by address; what a test is given by std::move is moved from and not copied; what is given by
owning pointer is neither, the pointer itself is kept and given up by the caller. process() in builds with and without exceptions:
every path that returns gives back the very pointer the builder held, which nothing in between replaces, copies or moves. The macros
for objects that can be neither copied nor moved never make an object and refuse the request."""
from .common import *
from .proc import process, OBJ, builder

G = P('given')

def check(ctx):
    for cfg in ('default', 'nothrow'):
        old = ctx.use(cfg)
        try:
            fs = sorted((f for f in ctx.prog.fns.values() if f['q'].startswith('vdrv::give') and f['n'] != 'giveAll' and f.get('body') is not None), key=lambda f: f['n'])
            if not fs: raise Missing('ways of giving')
            for f in fs: ctx.guard('given', f, way, ctx, f, cfg)
            ctx.guard('returned', 'process', back, ctx, cfg)
            for n in ('PinnedDSP', 'PinnedSignal', 'PinnedMatcher'): ctx.guard('forbidden', n, pinned, ctx, n, cfg)
        finally: ctx.use(old)

def at(e, f):
    """the place in the library rather than in the driver"""
    return e if e is not None else f

def way(ctx, f, cfg):
    name = f['n'][4:]; w = '%s%s' % (name, '' if cfg == 'default' else ' (no exceptions)')
    s = ctx.run(f, None, [G])
    evs = [e for e in s.log if e.pc != FALSE]
    on = lambda e: e.kind == 'icall' and (e.this == G or e.this and e.this[:1] == (('deref', ('in', G)),))
    copies = [e for e in evs if on(e) and e.n == 'copy']; moves = [e for e in evs if on(e) and e.n == 'move']
    news = {e.id: e for e in evs if e.kind == 'new'}
    def flag(n): return [e for e in evs if e.kind == 'write' and e.loc[-1] == n and e.val == TRUE and len(e.loc) == 2 and isinstance(e.loc[0], tuple) and e.loc[0][0] in ('new', 'var', 'tmp')]
    cc, mc = flag('copied'), flag('moved')
    gone = [e for e in evs if e.kind == 'write' and e.loc[:len(G)] == G and e.loc[-1] == 'gone']
    written = [e for e in evs if e.kind in ('write', 'push', 'mclear', 'massign', 'vclear', 'vassign', 'vswap') and tuple(getattr(e, 'loc', None) or getattr(e, 'vec', None) or ())[:len(G)] == G]
    # the pointer is the object itself for the owning forms
    if name.endswith(('Owned', 'OwnedBase')):
        for e in copies + moves + cc + mc: ctx.bad('transferred', e, '%s: an effect given by owning pointer is %s' % (w, 'copied' if e in copies + cc else 'moved')); return
        kept = stored(ctx, s, evs)
        if ('in', G) in kept: ctx.ok('transferred', f, '%s: the very object is kept' % w)
        else: ctx.unk('transferred', f, '%s: where the object is kept (%s)' % (w, clip(', '.join(map(show, kept)))))
        v = s.read(G)
        if v == NULL: ctx.ok('transferred', f, '%s: the caller gives it up' % w)
        elif v == ('in', G): ctx.bad('transferred', f, '%s: the pointer is kept by the caller too: the object has two owners' % w)
        else: ctx.unk('transferred', f, '%s: what the caller keeps' % w)
        return
    if name.endswith(('Moved', 'Temporary')):
        for e in evs:
            if e.kind in ('write', 'push') and holds(e.val, G): ctx.bad('moved', e, '%s: the address of the object is kept, which is gone by the time it is used' % w); return
        if any(holds(v, G) for v in stored(ctx, s, [])): ctx.bad('moved', f, '%s: the address of the object is kept, which is gone by the time it is used' % w); return
        if gone or moves:
            ctx.ok('moved', f, '%s: moved from' % w)
            for e in cc + copies: (ctx.bad if name.startswith('Effect') or name.startswith('Chain') else ctx.unk)('moved', e, '%s: an effect given by std::move is copied' % w)
        elif (cc or copies) and name.endswith('Temporary'): ctx.ok('moved', f, '%s: an own copy is made' % w)
        elif cc or copies: (ctx.bad if name.startswith('Effect') else ctx.unk)('moved', (cc + copies)[0], '%s: an effect given by std::move is copied' % w)
        else: ctx.unk('moved', f, '%s: neither moved nor copied' % w)
        return
    for e in written + moves + mc: ctx.bad('untouched', e, '%s: the caller\'s object is %s' % (w, 'moved from' if e in moves + mc + gone else 'changed')); return
    ctx.ok('untouched', f, '%s: the caller\'s object is not written to' % w)
    n = len(copies) + len(cc)
    kept = [e for e in evs if e.kind in ('write', 'push') and holds(e.val, G)]
    for v in stored(ctx, s, []):
        if holds(v, G): ctx.bad('copied', f, '%s: the caller\'s own object is kept' % w); return
    if kept: ctx.bad('copied', kept[0], '%s: the address of the caller\'s object is kept' % w)
    elif not n: ctx.unk('copied', f, '%s: no copy is seen' % w)
    elif all(e.pc == TRUE for e in copies + cc) and n > 1: ctx.unk('copied', (copies + cc)[1], '%s: copied %d times' % (w, n))
    else: ctx.ok('copied', f, '%s: a copy is taken' % w)

def holds(v, g):
    """the value is the address of the given object"""
    return v in (('addr', g), ('loc', g), ('obj', g)) or isinstance(v, tuple) and v[:1] == ('ite',) and any(holds(x, g) for x in v[2:])

def stored(ctx, s, evs):
    """owning pointers that were put somewhere"""
    out = [e.val for e in evs if e.kind in ('push', 'write') and e.val is not None and e.val != NULL]
    b = builder(ctx)
    for e in s.log:
        if e.kind == 'call' and e.n == 'sink' and e.args and e.args[0][0] == 'loc':
            for fl in b['fields']:
                if 'unique_ptr<' in ctx.prog.strip(fl['t'])['s'] and 'DSP' in ctx.prog.strip(fl['t'])['s']: out.append(s.read(e.args[0][1] + (fl['n'],)))
    return out

def back(ctx, cfg):
    w = '' if cfg == 'default' else ' (no exceptions)'
    s = process(ctx); f = ctx.method(builder(ctx), 'process', 0)
    b = builder(ctx)
    held = {OBJ + (fl['n'],) for fl in b['fields'] if 'unique_ptr<' in ctx.prog.strip(fl['t'])['s'] and 'DSP' in ctx.prog.strip(fl['t'])['s']}
    if len(held) != 1: ctx.unk('returned', f, 'where the effect is kept'); return
    m = held.pop()
    # every copy or move of the held effect on the way
    for e in s.log:
        if e.pc == FALSE or e.kind != 'icall' or e.n not in ('copy', 'move') or not str(e.q).startswith('hart::DSP'): continue
        if e.this and e.this[0] == ('deref', ('in', m)) : ctx.bad('returned', e, 'process()%s makes another object of the tested effect' % w)
    for pc, v in cases(s.ret):
        if v == NULL and pc != TRUE and sem.implies(pc, eq(('in', m), NULL)): ctx.ok('returned', f, 'process()%s gives back nothing only when nothing was given to it' % w); continue
        if v == ('in', m): ctx.ok('returned', f, 'process()%s gives back the effect%s' % (w, '' if pc == TRUE else ' also when ' + clip(show(pc), 160)))
        elif v == NULL or v[0] == 'addr' or v[0] == 'ev' and v[-1] in ('copy', 'move'):
            p = possible(ctx, pc) if pc != TRUE else True
            if p is None:
                # with empty lists nothing that some element does happens
                no = {y: FALSE for y in subterms(pc) if y[0] == 'exists' and y[1] in s.loops and s.loops[y[1]].T is not None and s.loops[y[1]].T[0] == 'in' and s.loops[y[1]].T[1][-1] == '#size'}
                if no: p = possible(ctx, subst(pc, no))
            (ctx.bad if p else ctx.unk)('returned', f, 'process()%s gives back %s%s' % (w, 'nothing' if v == NULL else 'another object than the tested effect', '' if pc == TRUE else ' when ' + clip(show(pc), 200)))
        else: ctx.unk('returned', f, 'process()%s gives back %s' % (w, clip(show(v))))
    for e in s.log:
        if e.kind == 'write' and e.loc == m and e.pc != FALSE and e.val not in (NULL, ('in', m)): ctx.bad('returned', e, 'process()%s replaces the tested effect by %s' % (w, clip(show(e.val))))

def cases(t, pc=TRUE):
    if t[0] == 'ite': return cases(t[2], and_(pc, t[1])) + cases(t[3], and_(pc, not_(t[1])))
    return [(pc, t)]

def pinned(ctx, n, cfg):
    r = ctx.rec('vdrv::' + n, 'float')
    for m in ('copy', 'move'):
        f = ctx.method(r, m, 0); s = ctx.run(f, r, [])
        w = '%s() of an object that forbids it%s' % (m, '' if cfg == 'default' else ' (no exceptions)')
        made = [e for e in s.log if e.kind == 'new' and e.pc != FALSE]
        th = [e for e in s.log if e.kind == 'throw' and e.pc == TRUE]
        if made: ctx.bad('forbidden', made[0], '%s makes an object' % w); continue
        if cfg == 'default': ctx.must('forbidden', f, True if th else False if not [e for e in s.log if e.kind in ('throw', 'call', 'icall') and e.pc != FALSE] else None, '%s (%s) is refused by an exception' % (w, n))
        else: ctx.must('forbidden', f, True if s.ret == NULL else None, '%s (%s) gives nothing' % (w, n))
