"""Every element access of the library outside AudioBuffer itself (C12) - samples through channel pointers, elements of
vectors, ranges handed to standard algorithms - found syntactically, and each summarised in the context it is used in: renderers, effects,
envelopes and matchers after construction and prepare() with whatever their other methods may since have changed, the test
runner with arbitrary settings, the file writer and the plotter. For each access: 0 <= index and index + count <= length,
proved by linear arithmetic over the conditions on the path, the loop bounds and what the runner guarantees (C05, C27)."""
from .proc import *

N, NI, NO, MX, NF, RT = ('in', P('n#size')), ('in', P('ni#size')), ('in', P('no#size')), ('in', P('max#size')), ('in', P('frames#size')), ('in', P('rate'))

def check(ctx):
    seen = set(); unsignedfields(ctx)
    for base, entries in (('hart::Signal', signals), ('hart::DSP', effects), ('hart::Envelope', envelopes), ('hart::Matcher', matchers)):
        for r in ctx.subclasses(base):
            if not ctx.method(r, 'prepare', req=False): continue
            ctx.guard('bounds', r, entries, ctx, r, seen)
    ctx.guard('bounds', None, host, ctx, seen)
    for q, m in (('hart::WavWriter', 'writeBuffer'), (None, 'hart::plotData')):
        ctx.guard('bounds', None, single, ctx, q, m, seen)
    ctx.guard('covered', None, everywhere, ctx, seen)

# ---------------------------------------------------------------- contexts
def changed(ctx, r):
    """members that methods other than prepare() may have changed"""
    key = ('changed', r['id'])
    if key in ctx._cache: return ctx._cache[key]
    out = set(); c = r
    ms = []; called = set()
    for f in ctx.methods(r, 'prepare'): walk(f.get('body'), lambda x: called.add(x.get('fn')) if x.get('k') in ('call', 'icall') else None)
    while c is not None:
        ms += [f for f in ctx.methods(c) if f.get('kind') != 'ctor' and not f['n'].startswith('~') and f['n'] not in ('prepare', 'operator=', 'prepareWithEnvelopes', 'prepareWithDSPChain', 'move', 'copy') and f.get('acc') in (0, None) and f['id'] not in called and not f.get('mstatic') and not f.get('mconst')]
        c = next((ctx.prog.recs[b['id']] for b in c.get('bases', []) if b['id'] in ctx.prog.recs), None)
    for f in ms:
        try: s = ctx.run(f, r)
        except Giveup: continue
        for k, v in s.st.store.items() if s.st is not None else ():
            if k[:1] == ('this',) and isinstance(v, tuple) and v and isinstance(v[0], str) and v != ('in', k): out.add(k[1:])
    ctx._cache[key] = out
    return out

def ready(ctx, r, args):
    """an object that was made (and, in the second round, used in any way) and prepared"""
    cs = [c for c in ctx.ctors(r) if not ctx.iscopy(r, c) and not c.get('deleted')]
    for used in (False, True):
        for c in cs or [None]:
            e = ctx.engine(access=True); st = State(); e.dyn[OBJ] = r['id']
            if c is not None: st, _ = e.run(c, this=OBJ, args=None, st=st)
            if st is None: continue
            ch = changed(ctx, r) if used else ()
            for k in ch: st.store[OBJ + k] = ('in', OBJ + k)
            f = ctx.method(r, 'prepare')
            st, _ = e.run(f, this=OBJ, args=args, st=st)
            if st is None: raise Missing('prepare never returns')
            for k in ch: st.store[OBJ + k] = ('in', OBJ + k)
            st.pc = TRUE
            e.used = used; e.changed = {OBJ + k for k in ch}
            yield c, e, st

def signals(ctx, r, seen):
    f = ctx.method(r, 'renderNextBlock'); known = set()
    for c, e, st in ready(ctx, r, [RT, N, MX]):
        b = P(f['params'][0]['n']); st.store[b + ('#nch',)] = N; st.store[b + ('#nfr',)] = NF
        e.run(f, this=OBJ, args=[b], st=st); ctx.fns.add(f['q'])
        judge(ctx, f, e, [le(NF, MX)], seen, known=known)

def effects(ctx, r, seen):
    f = ctx.method(r, 'process', 3); known = set()
    for c, e, st in ready(ctx, r, [RT, NI, NO, MX]):
        i, o, v = (P(p['n']) for p in f['params'])
        st.store[i + ('#nch',)] = NI; st.store[o + ('#nch',)] = NO; st.store[i + ('#nfr',)] = NF; st.store[o + ('#nfr',)] = NF
        h = ctx.run(ctx.method(r, 'hasEnvelopeFor', 1), r, [('in', P('id'))]).ret
        if h is not None and h[0] == 'has' and h[1][0] == 'in':
            st.store[v + ('#has', ('[]',))] = ('in', OBJ + h[1][1][1:])
        e.given[v + (('[]',), '#size')] = lambda ix: NF
        e.run(f, this=OBJ, args=[i, o, v], st=st); ctx.fns.add(f['q'])
        judge(ctx, f, e, [le(NF, MX)], seen, known=known)

def envelopes(ctx, r, seen):
    f = ctx.method(r, 'renderNextBlock', 2); known = set()
    for c, e, st in ready(ctx, r, [RT, MX]):
        v = P(f['params'][1]['n'])
        e.run(f, this=OBJ, args=[NF, v], st=st); ctx.fns.add(f['q'])
        judge(ctx, f, e, [], seen, known=known)

def matchers(ctx, r, seen):
    f = ctx.method(r, 'match', 1); known = set()
    for c, e, st in ready(ctx, r, [RT, N, MX]):
        b = P(f['params'][0]['n']); st.store[b + ('#nch',)] = N; st.store[b + ('#nfr',)] = NF
        st, ret = e.run(f, this=OBJ, args=[b], st=st); ctx.fns.add(f['q'])
        judge(ctx, f, e, [], seen, known=known)
        if st is not None and e.used: ctx.guard('details', f, details, ctx, r, e, st, ret)

def details(ctx, r, e, st, ret):
    """the place a matcher reports is one of the audio it was given (which has frames and channels: C04)"""
    g = ctx.method(r, 'getFailureDetails', 0)
    st.pc = TRUE; st2, d = e.run(g, this=OBJ, args=[], st=st)
    if d is None or d[0] not in ('obj', 'loc'): raise Missing('details')
    s = Sum(e, st2, None)
    for k, n in (('frame', NF), ('channel', N)):
        v = s.read(d[1] + (k,)); what = '%s: the %s it reports' % (r['q'].split('::')[-1], k)
        F = Facts([lt(ZERO, N), lt(ZERO, NF), not_(ret)] if pure(ret) else [lt(ZERO, N), lt(ZERO, NF)])
        v = F.simp(v)
        v = assuming(v, not_(ret))
        x = below(ctx, e, v, n, F)
        if x is True: ctx.ok('details', g, what)
        elif x is False: ctx.bad('details', g, '%s can be %s' % (what, clip(show(v))))
        else: ctx.unk('details', g, '%s: %s' % (what, clip(show(v))))

def assuming(v, c):
    """v, given that c holds"""
    known = {}
    todo = [c]
    while todo:
        x = todo.pop()
        if x[0] == 'and': todo += list(x[1:])
        known[x] = TRUE; known[not_(x)] = FALSE
    def go(t):
        if t in known: return known[t]
        if t[0] == 'ite':
            a = go(t[1])
            if a == TRUE: return go(t[2])
            if a == FALSE: return go(t[3])
            return ite(a, go(t[2]), go(t[3]))
        return t
    return go(v)

def below(ctx, e, t, n, F, depth=0, hyp=()):
    """0 <= t < n: True, False (understood and not so) or None"""
    if depth > 12: return None
    if t[0] == 'ite':
        a = below(ctx, e, t[2], n, F.with_(t[1]), depth + 1, hyp); b = below(ctx, e, t[3], n, F.with_(not_(t[1])), depth + 1, hyp)
        return True if a and b else False if a is False or b is False else None
    if t in hyp: return True
    if t[0] == 'lo':
        lp = e.loops[t[1]]
        if t[2] not in lp.phis: return None
        i, nx = lp.phis[t[2]]
        me = ('phi', t[1], t[2])
        a = below(ctx, e, i, n, F, depth + 1, hyp); b = below(ctx, e, nx, n, inside(e, lp, F), depth + 1, hyp + (me,))
        return True if a and b else False if a is False and i[0] in ('int',) else None
    if t[0] == 'phi':
        lp = e.loops[t[1]]
        if t[2] in lp.phis and lp.phis[t[2]][0] in hyp: return True
        if t[2] in lp.phis: return below(ctx, e, ('lo', t[1], t[2]), n, F, depth + 1, hyp)
        return None
    if t[0] == 'kx':
        lp = e.loops[t[1]]
        F = inside(e, lp, F, t)
    elif any(y[0] == 'kap' for y in [t] + list(subterms(t))):
        for y in [t] + list(subterms(t)):
            if y[0] == 'kap' and y[1] in e.loops: F = inside(e, e.loops[y[1]], F)
    if F.ge0(sub(sub(n, t), ONE)) and F.ge0(t): return True
    ks = {y: ('in', P('%s%s#size' % y[:2])) for z in [t] + list(F.true) for y in [z] + list(subterms(z)) if y[0] in ('kx', 'kap')}
    t0 = [t] + list(F.true); t = subst(t, ks); fs = [subst(x, ks) for x in F.true]; vs = {y for y in [t] + list(subterms(t)) if y[0] == 'in'}
    fs = [x for x in fs if x[0] in ('lt', 'le', 'not') and all(y in vs or y[0] != 'in' or y == n for y in subterms(x))]
    if not pure(t) or not all(pure(x) for x in fs): return None
    return False if possible(ctx, or_(lt(t, ZERO), not_(lt(t, n))), fs + [lt(ZERO, n)], special=[(sem.is_unsigned_leaf, lambda r, t: r.choice(around(t0)))], n=2000) else None

def around(ts):
    cs = {y[1] for t in ts for y in [t] + list(subterms(t)) if y[0] == 'int'}
    return sorted({0, 1, 2, 3} | {c + d for c in list(cs)[:8] for d in (-1, 0, 1, 2) if c + d >= 0})

def inside(e, lp, F, at=None):
    c = lp.cond if lp.cond is not None else TRUE
    return F.with_(subst(c, {('kap', lp.L): at}) if at is not None else c)

def host(ctx, seen):
    rec = builder(ctx)
    s = ctx.seq(rec, setters(ctx) + [(ctx.method(rec, 'process', 0), [])], this=OBJ, opaque=WRITERS, access=True)
    judge(ctx, ctx.method(rec, 'process', 0), s.e, [], seen, matched(s))

def matched(s):
    """where a matcher says it failed (matchers' own details, checked with them) in the audio it was given"""
    ms = [v for v in s.log if v.kind == 'icall' and v.q.endswith('::match')]
    ds = [v for v in s.log if v.kind == 'icall' and v.q.endswith('::getFailureDetails')]
    def f(v, i, n):
        if i[0] not in ('ev', 'evout', 'in', 'sel'): return False
        if not any(mentions(i, lambda y, d=d: y[0] in ('ev', 'evout') and y[1] == d.id) for d in ds): return False
        bufs = {a[1] for m in ms for a in m.args if a[0] == 'loc' and m.loops and v.loops[:len(m.loops)] == m.loops}
        b = v.buf if v.kind == 'chan' else v.ptr[1][:-2]
        return b in bufs
    return f

def single(ctx, q, m, seen):
    if q: r = ctx.rec(q); fs = ctx.methods(r, m)
    else: fs = [f for f in ctx.prog.byq.get(m, []) if f.get('body') is not None]; r = None
    for f in fs[:1]:
        e = ctx.engine(access=True)
        e.run(f, this=('this',) if r and not f.get('mstatic') else None, dyn=r['id'] if r else None); ctx.fns.add(f['q'])
        judge(ctx, f, e, [], seen)

# ---------------------------------------------------------------- the accesses
def judge(ctx, f, e, facts, seen, trusted=lambda v, i, n: False, known=None):
    fresh = not getattr(e, 'used', True)
    for v in e.log:
        if v.kind == 'access': i, n, cnt, what, g = v.i, v.n, v.cnt, v.what, v.guard
        elif v.kind == 'index': i, n, cnt, what, g = v.i, v.size, ONE, 'element', TRUE
        elif v.kind == 'chan': i, n, cnt, what, g = v.ch, v.n, ONE, 'channel', TRUE
        else: continue
        seen.add((v.file, v.line))
        if v.pc == FALSE or v.kind == 'index' and v.checked: continue
        fs = list(v.asm) + [v.pc, g] + list(facts)
        for L in v.loops:
            lp = e.loops.get(L)
            if lp is None: continue
            fs += list(getattr(lp, 'asm', ())) + [lp.pc]
            fs += [lt(('kap', L), t) for t in lp.conds if Facts().isnn(t)]       # also of loops that stop at their end with !=
        fs = [x for x in fs if x != TRUE]
        text = '%s %s%s' % (what, clip(show(i), 60), '' if cnt == ONE else ' and on, %s of them' % clip(show(cnt), 60))
        if n is None: n = drwav(v)
        at = (v.file, v.line, v.kind, what)
        if known is not None and at in known: continue
        if fresh:                  # only what cannot be right already for a new object
            if n is not None and not inb(e, i, n, cnt, fs) and refuted(ctx, e, *first(e, v, i, n, cnt, fs)):
                known.add(at); ctx.bad('bounds', v, '%s: %s of %s' % (f['q'], text, clip(show(n), 80)))
            continue
        if n is None: ctx.unk('bounds', v, '%s %s: of how many' % (f['q'], text)); continue
        if trusted(v, i, n): ctx.ok('bounds', v, '%s: %s of the audio the matcher was given' % (f['q'], text)); continue
        if inb(e, i, n, cnt, fs): ctx.ok('bounds', v, '%s: %s of %s' % (f['q'], text, clip(show(n), 60))); continue
        r = not depends(ctx, e, [i, n, cnt] + fs) and refuted(ctx, e, i, n, cnt, fs)
        (ctx.bad if r else ctx.unk)('bounds', v, '%s: %s of %s%s' % (f['q'], text, clip(show(n), 80), ', ' + r if isinstance(r, str) else ''))

def depends(ctx, e, ts):
    """on members of a used object that may be related in ways not known here"""
    ch = {k for k in getattr(e, 'changed', ()) if ('in', k) and not twoway(ctx, e, k)}
    return bool(ch) and any(y[0] == 'in' and isinstance(y[1], tuple) and any(y[1][:len(k)] == k for k in ch) for t in ts for y in [t] + list(subterms(t)))

def twoway(ctx, e, k):
    for r in ctx.prog.recs.values():
        for f in r.get('fields', []):
            if f['n'] == k[-1] and r.get('q', '').startswith('hart::'):
                t = ctx.prog.strip(f['t']); return t['k'] in ('bool', 'enum')
    return False

def first(e, v, i, n, cnt, fs):
    """the access in the first round of the loops it is in, where that makes it plainer"""
    m = {}
    for y in [x for t in [i, n, cnt] + fs for x in [t] + list(subterms(t))]:
        if y[0] == 'phi' and y[1] in e.loops and y[2] in e.loops[y[1]].phis: m[y] = None
    if not m: return i, n, cnt, fs
    z = {('kap', y[1]): ZERO for y in m}
    def go(t):
        for _ in range(4):
            for y in m: m[y] = e.loops[y[1]].phis[y[2]][0]
            t2 = subst(subst(t, m), z)
            if t2 == t: break
            t = t2
        return t
    return go(i), go(n), go(cnt), [go(x) for x in fs]

def drwav(v):
    """what dr_wav hands out: frames of every channel it found"""
    r = v.ptr if v.kind == 'access' else None
    if isinstance(r, tuple) and r and r[0] == 'ptr': r = r[1][0]
    while isinstance(r, tuple) and r and r[0] == 'deref': r = r[1]
    if isinstance(r, tuple) and r[:1] == ('ev',) and r[2:] and 'drwav_open_file_and_read_pcm_frames' in str(r[2]): return mul(('evout', r[1], 1), ('evout', r[1], 3))

def signs(e, F, ts):
    """counters that are never negative"""
    for t in ts:
        for y in [t] + list(subterms(t)):
            if y[0] in ('phi', 'lo') and y not in F.nn and y[1] in e.loops and y[2] in e.loops[y[1]].phis:
                F.nn.add(y)
                i, nx = e.loops[y[1]].phis[y[2]]
                F.nn.add(('phi',) + y[1:])
                if not (isnn(F, i) and isnn(F, nx)): F.nn.discard(y); F.nn.discard(('phi',) + y[1:])
def isnn(F, t):
    if t[0] == 'in' and not isnum(t): return True if sem.is_unsigned_leaf(t) else F.isnn(t) or unsignedfield(t)
    if t[0] == 'ite': return isnn(F, t[2]) and isnn(F, t[3])
    return F.ge0(t)
UNS = set()
def unsignedfields(ctx):
    for r in ctx.prog.recs.values():
        if not r.get('q', '').startswith('hart::'): continue
        for f in r.get('fields', []):
            t = ctx.prog.strip(f['t'])
            if t['k'] == 'int' and t.get('sg') is False: UNS.add(f['n'])
def unsignedfield(t): return isinstance(t[1], tuple) and t[1][-1] in UNS

def inb(e, i, n, cnt, fs):
    F = Facts(fs)
    ts = [i, n, cnt] + fs
    for y in [x for t in ts for x in [t] + list(subterms(t))]:
        if y[0] == 'in' and unsignedfield(y): F.nn.add(y)
        if y[0] == 'evout' and y[2] in (1, 2, 3) and any(v.id == y[1] and 'drwav_open_file_and_read_pcm_frames' in str(getattr(v, 'q', '')) for v in e.log): F.nn.add(y)
    signs(e, F, ts)
    alts = [F]
    for x in fs:
        if x[0] == 'or' and len(alts) < 8: alts = [a.with_(y) for a in alts for y in x[1:]]
    def ok(F): return F.ge0(i) and (cnt == ONE or F.ge0(cnt)) and F.ge0(sub(n, add(i, cnt))) or cnt != ONE and False
    return all(contradictory(a) or ok(a) for a in alts)

def contradictory(F): return any(not_(x) in F.true for x in F.true)

def refuted(ctx, e, i, n, cnt, fs):
    m = {y: ('in', P('x%s_%s#size' % y[1:])) for t in [i, n, cnt] + fs for y in [t] + list(subterms(t)) if y[0] == 'evout' and isinstance(y[2], int) and any(v.id == y[1] and 'drwav_open_file_and_read_pcm_frames' in str(getattr(v, 'q', '')) for v in e.log)}
    i, n, cnt = (subst(x, m) for x in (i, n, cnt)); fs = [subst(x, m) for x in fs]
    out = or_(lt(n, add(i, cnt)), lt(i, ZERO), lt(cnt, ZERO))
    if pure(i) and pure(n) and pure(cnt):
        ls = {y for t in (i, n, cnt) for y in [t] + list(subterms(t)) if y[0] in ('in', 'kap', 'ev', 'sel')}
        for x in fs:
            if not pure(x) and any(y in ls for y in subterms(x)): return False
        ar = [0, 0] + around([i, n, cnt] + fs)
        fs = [x for x in fs if pure(x)]
        p = possible(ctx, out, fs, special=[(lambda t: sem.is_unsigned_leaf(t) or t[0] == 'in' and unsignedfield(t), lambda r, t: r.choice(ar))], n=3000)
        return 'possible' if p else False
    # a counter nothing bounds
    for y in {z for z in [i] + list(subterms(i)) if z[0] == 'phi'}:
        lp = e.loops.get(y[1])
        if lp is None or y[2] not in lp.phis: continue
        if any(mentions(x, lambda z: z == y) for x in fs): continue
        nx = lp.phis[y[2]][1]
        leaves = []
        def lv(t):
            if t[0] == 'ite': lv(t[2]); lv(t[3])
            else: leaves.append(t)
        lv(nx)
        if any(l == add(y, ONE) for l in leaves) and not any(mentions(l, lambda z: z[0] in ('mod', 'min')) for l in leaves): return 'which nothing bounds'
    return False

# ---------------------------------------------------------------- nothing forgotten
ALGOS = {'fill', 'fill_n', 'copy', 'copy_n', 'move', 'transform', 'for_each', 'generate', 'generate_n', 'accumulate', 'max_element', 'min_element', 'any_of', 'all_of', 'none_of', 'count_if', 'find_if', 'equal', 'iota', 'inner_product', 'copy_if', 'find', 'count'}
def everywhere(ctx, seen):
    p = ctx.prog
    for f in p.fns.values():
        if f.get('body') is None or not f['q'].startswith('hart::') or f['q'].startswith('hart::AudioBuffer') or not f['file'].startswith('include/'): continue
        if f.get('targs') and 'float' in str(f.get('targs')): continue
        def see(x):
            k = x['k']; hit = None
            if k == 'idx': hit = 'element'
            elif k in ('call', 'icall') and x.get('this') is not None and (x.get('op') == '[]' or x.get('n') in ('front', 'back')):
                t = p.strip(x['this']['t'])
                if t.get('q') in ('std::vector', 'std::array', 'std::deque', 'hart::AudioBuffer'): hit = 'element'
            elif k == 'call' and str(x.get('q', '')).startswith('std::') and x.get('n') in ALGOS and len(x.get('args', [])) > 1 and p.strip(x['args'][0]['t'])['k'] in ('ptr', 'rec'): hit = 'range'
            if hit and (f['file'], x.get('l')) not in seen: miss.setdefault((f['file'], x.get('l')), (f, hit))
        miss = {}
        walk(f['body'], see)
        for (fl, l), (g, hit) in miss.items(): ctx.unk('covered', g, '%s accessed in line %s: not analysed' % (hit, l))
    ctx.must('covered', None, True if seen else None, '%d places' % len(seen))
