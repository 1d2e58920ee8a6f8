"""Resource typestate over the summaries of the functions that touch files (the wav writer, the wav file signal; found by
enumerating every call of dr_wav or C file functions in the library), for the default build and for the one without
exceptions. For every call that can fail: its failure, as a condition over the calls' results, implies that an IOError is raised
(a file stream counts as checked only by a query after it was closed or flushed). For everything obtained (writers, encoded
data, decoded samples): the release calls are mutually exclusive, together cover exactly the condition under which it was
obtained, come before every later way out and after every use. Handlers that would swallow an error are searched for."""
from .common import *

QUERY = {'operator!': False, 'fail': False, 'good': True, 'operator bool': True}      # value when all is well
BUF = P('buffer')

def check(ctx):
    for cfg in ('default', 'nothrow'):
        old = ctx.use(cfg)
        try:
            for what, fn in (('saving', saving), ('reading', reading)): ctx.guard('errors', '%s (%s)' % (what, cfg), fn, ctx, cfg)
            ctx.guard('covered', cfg, covered, ctx, cfg)
        finally: ctx.use(old)
    ctx.guard('swallowed', None, swallowed, ctx)

def saving(ctx, cfg):
    r = ctx.rec('hart::WavWriter'); f = ctx.method(r, 'writeBuffer', 4)
    s = ctx.run(f, r, [BUF, P('fileName'), ('in', P('rate')), ('in', P('format'))])
    judge(ctx, f, s, cfg)

def reading(ctx, cfg):
    r = ctx.rec('hart::WavFile'); n = 0
    for c in ctx.ctors(r):
        if ctx.iscopy(r, c) or c.get('deleted'): continue
        s = ctx.run(c, r, opaque={'hart::toAbsolutePath'}); n += 1
        judge(ctx, c, s, cfg)
    if not n: raise Missing('constructors')

# ---------------------------------------------------------------- what is obtained
def cond(e): return flags(and_(e.pc, *e.asm))

def flags(t):
    """the yes/no answers of dr_wav are 0 or 1"""
    m = {}
    for y in subterms(t):
        if y[0] == 'eq' and ('int', 1) in y[1:]:
            o = y[2] if y[1] == ('int', 1) else y[1]
            if o[0] == 'ev' and str(o[2]).startswith('drwav_init'): m[y] = not_(eq(o, ('int', 0)))
    return subst(t, m) if m else t

def simple(t):
    """made of nothing but results of calls"""
    return all(y[0] in ('and', 'or', 'not', 'ev', 'eq', 'null', 'bool', 'in', 'int', 'str', 'lt', 'evout', 'P', 'empty', 'le', 'flt', 'add', 'mul') for y in [t] + list(subterms(t)) if isinstance(y, tuple) and y and isinstance(y[0], str) and len(y) > 1)

def obtained(s):
    """(event, name, condition of success, is this what is released?, name of the release call)"""
    out = []
    for e in s.log:
        if e.kind != 'call' or e.pc == FALSE: continue
        q = e.q; r = ('ev', e.id, q)
        if q.startswith('drwav_init'):
            h = e.args[0]
            out.append((e, 'writer' if 'write' in q else 'reader', not_(eq(r, ('int', 0))), lambda a, h=h: a == h, 'drwav_uninit', h))
            if q.startswith('drwav_init_memory_write'): out.append((e, 'encoded data', not_(eq(r, ('int', 0))), lambda a, d=('evout', e.id, 1): a == d, 'drwav_free', ('evout', e.id, 1)))
        elif q.startswith('drwav_open') and 'read' in q:
            out.append((e, 'decoded samples', not_(eq(r, NULL)), lambda a, r=r: a == r, 'drwav_free', r))
        elif q in ('fopen', 'std::fopen'):
            out.append((e, 'file', not_(eq(r, NULL)), lambda a, r=r: a == r, 'fclose', r))
    return out

NULL = ('null',)

def raises(s):
    out = [(cond(e), e.type, e) for e in s.log if e.kind == 'throw']
    out += [(cond(e), e.val[1], e) for e in s.log if e.kind == 'out' and e.val[0] == 'str' and e.val[1].startswith('hart::') and e.val[1].endswith('Error')]
    return out

def judge(ctx, f, s, cfg):
    name = '%s (%s build)' % (f['q'], cfg)
    rs = raises(s); io = or_(*[c for c, t, e in rs if t == 'hart::IOError']) if rs else FALSE
    objs = obtained(s)
    if not objs and not any(e.kind == 'open' for e in s.log): raise Missing('%s: no file is used' % name)
    done = set()
    for a, what, S, isit, rel, h in objs:
        C = cond(a)
        if a.loops: ctx.unk('errors', a, '%s: %s in a loop' % (name, a.q)); continue
        if a.id not in done:
            done.add(a.id); need = and_(C, not_(S)); io_ = io
            if a.q.startswith('drwav_open'): io_ = subst(io, {('evout', a.id, j): ('int', 0) for j in range(1, len(a.args))})     # dr_wav clears these first
            ok = sem.implies(need, io_)
            other = [t for c, t, e in rs if t != 'hart::IOError' and not and_(need, c) == FALSE and sem.implies(need, c)]
            if ok: ctx.ok('errors', a, '%s: an IOError is raised when %s fails' % (name, a.q))
            elif other: ctx.bad('errors', a, '%s: when %s fails the error raised is %s' % (name, a.q, other[0]))
            else: (ctx.bad if simple(io) and simple(need) else ctx.unk)('errors', a, '%s: %s may fail without an IOError (raised only when %s)' % (name, a.q, clip(show(io))))
            if a.q.startswith('drwav_init_file_write'): ctx.bad('errors', a, '%s: %s writes the file itself, and does not say when that fails' % (name, a.q))
        released(ctx, s, name, a, what, and_(C, S), isit, rel, h, rs)
    streams(ctx, s, name, io)

def owners(ctx, s):
    """local objects that may release things when they go out of scope"""
    out = []
    for e in s.log:
        if e.kind != 'decl' or 't' not in e.node: continue
        t = ctx.prog.strip(e.node['t'])
        if t['k'] != 'rec': continue
        q = t['q']
        if q in ('std::unique_ptr', 'std::shared_ptr', 'std::function'): out.append(t['s'])
        elif t.get('rid') in ctx.prog.recs and any(g['n'].startswith('~') and not g.get('implicit') and not g.get('defaulted') for g in ctx.prog.fns.values() if g.get('cls') == t['rid']) and not q.startswith('std::') and q != 'hart::AudioBuffer': out.append(t['s'])
    return out

def released(ctx, s, name, a, what, S, isit, rel, h, rs):
    evs = [e for e in s.log if e.kind == 'call' and e.q.split('::')[-1] in (rel, 'free' if rel == 'drwav_free' else rel) and e.args and isit(e.args[0]) and e.pc != FALSE]
    blind = owners(ctx, s) or any(e.kind == 'icall' and any(isit(x) for x in e.args) for e in s.log)
    if not evs:
        (ctx.unk if blind else ctx.bad)('released', a, '%s: the %s is never released' % (name, what)); return
    if any(e.loops for e in evs): ctx.unk('released', evs[0], '%s: the %s is released in a loop' % (name, what)); return
    cs = [cond(e) for e in evs]
    yes = lambda t: ctx.bad if simple(t) and not blind else ctx.unk
    for i in range(len(evs)):
        # not before it was obtained, or without
        if evs[i].seq < a.seq: ctx.bad('released', evs[i], '%s: the %s is released before it is obtained' % (name, what)); return
        if rel != 'drwav_free' and not sem.implies(cs[i], S): yes(cs[i])('released', evs[i], '%s: the %s is released although it may not have been obtained' % (name, what)); return
        for j in range(i):
            b = and_(cs[i], cs[j])
            if not sem.implies(b, FALSE): yes(b)('released', evs[i], '%s: the %s may be released twice' % (name, what)); return
    # every way out after it was obtained
    exits = [(c, e, 'when %s is thrown' % t) for c, t, e in rs if e.kind == 'throw' and e.seq > a.seq]
    if s.st is not None and s.st.store is not None: exits.append((cond(s.st), None, 'when it returns'))
    for c, x, how in exits:
        before = or_(*[k for k, e in zip(cs, evs) if x is None or e.seq < x.seq]) if evs else FALSE
        need = and_(c, S)
        if not sem.implies(need, before): yes(and_(need, before))('released', x or a, '%s: the %s is not released %s' % (name, what, how)); return
    # no use afterwards
    for e in s.log:
        if e in evs or e.seq < min(x.seq for x in evs) or e.pc == FALSE: continue
        if e.kind == 'call' and any(isit(x) or x == h for x in e.args) and e.q != rel: use = e.q
        elif e.kind == 'access' and mentions(e.ptr, lambda y: y == h): use = 'an access'
        elif e.kind == 'write' and mentions(e.val, lambda y: y[0] == 'sel' and mentions(y[1], lambda z: z == h)): use = 'an access'
        else: continue
        for k, x in zip(cs, evs):
            if x.seq < e.seq and not sem.implies(and_(k, cond(e)), FALSE):
                yes(and_(k, cond(e)))('released', e, '%s: the %s is used (%s) after it was released' % (name, what, use)); return
    if what == 'encoded data':
        un = [e for e in s.log if e.kind == 'call' and e.q == 'drwav_uninit' and e.pc != FALSE]
        if un and min(e.seq for e in un) > min(e.seq for e in evs): ctx.bad('released', evs[0], '%s: the encoded data is released while the writer still writes to it' % name); return
    ctx.ok('released', evs[0], '%s: the %s is released exactly once whenever it was obtained' % (name, what))

def streams(ctx, s, name, io):
    for o in s.log:
        if o.kind != 'open' or o.pc == FALSE: continue
        V = o.loc if hasattr(o, 'loc') else o.this
        calls = [e for e in s.log if e.kind == 'call' and getattr(e, 'this', None) == V and e.pc != FALSE]
        outs = [e for e in s.log if e.kind == 'out' and getattr(e, 'stream', None) == V]
        wr = [e for e in calls if e.n in ('write', 'put')] + outs
        fl = [e for e in calls if e.n in ('close', 'flush')]
        qs = [e for e in calls if e.n in QUERY]
        odd = [e.n for e in calls if e.n in ('exceptions', 'clear', 'setstate', 'rdbuf', 'rdstate', 'swap', 'operator=')]
        if not wr: continue
        last = max(e.seq for e in wr)
        f = [e for e in fl if e.seq > last and sem.implies(cond(o), e.pc)] or [e for e in fl if e.seq > last]
        if not f:
            (ctx.unk if odd else ctx.bad)('errors', o, '%s: the file is closed without anybody noticing when that fails' % name); continue
        ok = False
        for q in qs:
            if q.seq < max(e.seq for e in f): continue
            r = next((y for c in [io] for y in [c] + list(subterms(c)) if y[0] == 'ev' and y[1] == q.id), None)
            if r is None: continue
            wrong = r if not QUERY[q.n] else not_(r)
            if sem.implies(and_(cond(q), wrong), io): ok = True
        if ok: ctx.ok('errors', o, '%s: an IOError is raised when the file cannot be created or completely written' % name)
        else: (ctx.unk if odd or any(e.n in ('bad', 'eof', 'is_open', 'tellp') and e.seq > max(x.seq for x in f) for e in calls) and len(qs) == 0 and odd else ctx.bad)('errors', o, '%s: whether the file was completely written is not asked for after it was closed%s' % (name, '' if not qs else ', or the answer does not lead to an IOError'))

# ---------------------------------------------------------------- elsewhere
KNOWN = ('hart::WavWriter', 'hart::WavFile')
def covered(ctx, cfg):
    bad = []
    for f in ctx.prog.fns.values():
        if f.get('body') is None or not f['q'].startswith('hart::') or f['q'].startswith(KNOWN): continue
        def see(x):
            if x.get('k') == 'call' and (str(x.get('q', '')).startswith(('drwav_', 'drflac_', 'drmp3_')) or x.get('q') in ('fopen', 'std::fopen', 'malloc', 'std::malloc', 'open')): bad.append((f, x['q']))
        walk(f['body'], see)
    for f, q in bad: ctx.unk('covered', f, '%s called outside the functions analysed' % q)
    if not bad: ctx.ok('covered', None, 'files are opened by the wav writer and the wav file signal alone (%s build)' % cfg)

def swallowed(ctx):
    """handlers around the functions that raise these errors"""
    n = 0
    for f in ctx.prog.fns.values():
        if f.get('body') is None or not f['q'].startswith('hart::') or f['q'] == 'hart::TestRegistry::runTask': continue
        def see(x):
            if x.get('k') != 'try': return
            calls = []
            walk(x['body'], lambda y: calls.append(y) if y.get('k') in ('call', 'icall', 'ctor') else None)
            inner = [y for y in calls if str(y.get('q', '')).startswith('hart::')]
            if not inner: return
            direct = [y for y in inner if y['q'].startswith(('hart::WavWriter::writeBuffer', 'hart::WavFile::WavFile'))]
            for h in x.get('catch', []):
                th = []; walk(h, lambda y: th.append(y) if y.get('k') == 'throw' else None)
                if not th: out.append((f, x, direct))
        out = []; walk(f['body'], see); n += 1
        for g, x, direct in out: (ctx.bad if direct else ctx.unk)('swallowed', g, 'line %s: errors are caught and not passed on' % x.get('l'))
    ctx.ok('swallowed', None, 'no handler in %d functions (runTask: C01)' % n)
