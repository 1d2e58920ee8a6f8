"""Every copy constructor, copy assignment and copy() of the library's signals, effects, envelopes, matchers and audio buffers (the ones
the compiler writes included) is summarised, from an unknown object and from objects made by each constructor and changed by
each setter. Every setting (a field that depends on what a constructor or setter was given) must have the source's value; lists
and maps of owned objects must be filled with copy() of each of the source's elements, in order, after being emptied; an owned
object is copied unless there is none; copy() makes an object of its own class from *this. Nothing that is shared may change:
no pointer into the source is taken over, what a shared pointer points to is never written after construction, and no method
writes static or global state; assigning an object to itself changes nothing."""
from .render import *
from .proc import *

LIFE = ('prepare', 'reset', 'renderNextBlock', 'process', 'copy', 'move', 'represent', 'getFailureDetails', 'match')
SRC, DST, OBJ = (('P', 'src'),), (('P', 'dst'),), (('P', 'obj'),)

def lineage(ctx, r):
    out = []
    for b in r.get('bases', []):
        if b['id'] in ctx.prog.recs: out += lineage(ctx, ctx.prog.recs[b['id']])
    return out + [r]

def classes(ctx):
    out = []
    for q in ('hart::Signal', 'hart::DSP', 'hart::Matcher', 'hart::Envelope'):
        out += ctx.subclasses(q)
    return out

def check(ctx):
    for r in classes(ctx):
        ctx.guard('settings', r['q'], one, ctx, r)
        ctx.guard('type', r['q'], typed, ctx, r)
        ctx.guard('shared', r['q'], shared, ctx, r)
    for q in ('hart::Signal', 'hart::DSP'):
        ctx.guard('settings', q, one, ctx, ctx.rec(q))
        ctx.guard('shared', q, shared, ctx, ctx.rec(q))
    ctx.guard('settings', 'hart::AudioBuffer', buffer, ctx)

def iscopyassign(ctx, r, f):
    return f['n'] == 'operator=' and len(f['params']) == 1 and ctx.prog.ty(f['params'][0]['t'])['k'] == 'ref' and ctx.iscopy(r, f)

def copiers(ctx, r):
    """(label, function, kind)"""
    out = []
    for f in ctx.ctors(r):
        if f.get('ck') == 'copy' and not f.get('deleted'): out.append(('copy constructor', f, 'ctor'))
    for f in ctx.methods(r, 'operator='):
        if iscopyassign(ctx, r, f) and not f.get('deleted'): out.append(('copy assignment', f, 'assign'))
    return out

def fieldtype(ctx, fl):
    t = ctx.prog.strip(fl['t']); return t

def kindof(ctx, fl):
    s = fieldtype(ctx, fl)['s']
    if s.startswith('std::vector'): return 'vec'
    if s.startswith(('std::unordered_map', 'std::map')): return 'map'
    if s.startswith('std::unique_ptr'): return 'own'
    if s.startswith('std::shared_ptr'): return 'shared'
    if ctx.prog.ty(fl['t'])['k'] in ('ptr', 'ref', 'rref'): return 'raw'
    return 'value'

def owns(ctx, fl): return 'std::unique_ptr' in fieldtype(ctx, fl)['s']

def setters(ctx, r):
    out = []
    for b in lineage(ctx, r):
        for f in ctx.methods(b):
            if f.get('kind') in ('ctor', 'dtor') or f['n'] in LIFE or f['n'].startswith(('operator', '~', 'prepare', 'reset', 'render', 'process')) or f.get('mconst') or f.get('mstatic') or f.get('acc') not in (0, None): continue
            out.append(f)
    return out

def sym(ctx, f, n): return [P('%s%d' % (n, i)) if ctx.prog.ty(p['t'])['k'] in ('ref', 'rref') else ('in', P('%s%d' % (n, i))) for i, p in enumerate(f['params'])]

def settings(ctx, r):
    """names of the fields that depend on what a constructor or setter was given"""
    out = {fl['n'] for b in lineage(ctx, r) for fl in b['fields'] if kindof(ctx, fl) == 'shared'}
    names = {fl['n'] for b in lineage(ctx, r) for fl in b['fields']}
    for f in [c for c in ctx.ctors(r) if not ctx.iscopy(r, c)] + setters(ctx, r):
        if f.get('body') is None: continue
        try: s = ctx.run(f, r, sym(ctx, f, 'p'))
        except Exception: continue
        if s.st is None: continue
        for k, v in s.st.store.items():
            if k[:1] != ('this',) or len(k) < 2 or k[1] not in names or not (isinstance(v, tuple) and v and isinstance(v[0], str)): continue
            if any(y[0] in ('in', 'ev', 'evout', 'deref') and not (y[0] == 'in' and y[1][:1] == ('this',)) for y in [v] + list(subterms(v))): out.add(k[1])
            elif k[2:] and not ctx.iscopy(r, f) and f.get('kind') != 'ctor': out.add(k[1])
    return out

def made(ctx, r):
    """(label, engine, state) of objects at SRC"""
    cs = [c for c in ctx.ctors(r) if not ctx.iscopy(r, c) and c.get('body') is not None and not c.get('deleted')]
    ss = setters(ctx, r)
    def start(c):
        e = ctx.engine(); st = State(); e.dyn[SRC] = r['id']
        st, _ = e.run(c, this=SRC, args=sym(ctx, c, 'p'), st=st); return e, st
    for c in cs:
        e, st = start(c)
        if st is None: continue
        yield 'new', e, st, c
        for f in ss:
            try:
                e, st = start(c); st, _ = e.run(f, this=SRC, args=sym(ctx, f, 'q'), st=st)
            except Exception: continue
            if st is not None: yield 'after ' + f['n'], e, st, c

def copied(ctx, r, f, kind, e, st, here=SRC):
    """runs one way of copying the object at `here`; (state, where the copy is)"""
    if not base(r): e.dyn[here] = r['id']
    if kind == 'copy':
        st, ret = e.run(f, this=here, args=[], st=st)
        if st is None: return None, None
        if ret[0] not in ('ptr', 'addr') or not isinstance(ret[1][0], tuple) or ret[1][0][0] != 'new': return st, None
        return st, ret[1]
    if not base(r): e.dyn[OBJ] = r['id']
    st, _ = e.run(f, this=OBJ, args=[here], st=st)
    return st, OBJ

def base(r): return r['q'] in ('hart::Signal', 'hart::DSP', 'hart::Matcher', 'hart::Envelope')

def one(ctx, r):
    S = settings(ctx, r); n = r['q'].split('::')[1]
    fields = [fl for b in lineage(ctx, r) for fl in b['fields']]
    cp = copiers(ctx, r)
    if not base(r):
        f = ctx.method(r, 'copy', 0, req=False)
        if f is not None and f.get('cls') == r['id']: cp.append(('copy()', f, 'copy'))
    if not cp: ctx.ok('settings', r['q'], '%s can not be copied' % n)
    for lab, f, kind in cp:
        lab = '%s: %s' % (n, lab)
        # ---- anything, from an unknown object
        e = ctx.engine(); st, D = copied(ctx, r, f, kind, e, State()); ctx.fns.add(f['q'])
        if st is None: ctx.bad('settings', f, '%s never succeeds' % lab); continue
        if D is None: continue
        s = Sum(e, st, None); s.D = D
        own = {fl['n'] for fl in r['fields']} if kind == 'assign' else {fl['n'] for fl in fields}
        for fl in fields:
            k = kindof(ctx, fl)
            if fl['n'] not in own: continue
            if k == 'vec': ctx.guard('settings', f, vector, ctx, lab, f, s, fl, fl['n'] in S)
            elif k == 'map': ctx.guard('settings', f, mapping, ctx, lab, f, s, fl, fl['n'] in S)
            elif k == 'own': ctx.guard('settings', f, owned, ctx, lab, f, s, fl)
            elif k == 'raw': pointed(ctx, lab, f, s, fl)
        # ---- values, from objects made in every way
        seen = set()
        for how, e, st, c in made(ctx, r):
            src = {fl['n']: whole(e, st, SRC, fl['n']) for fl in fields if kindof(ctx, fl) in ('value', 'shared')}
            try: st, D = copied(ctx, r, f, kind, e, st)
            except Exception as x: ctx.unk('settings', f, '%s, %s: %s' % (lab, how, x)); continue
            if st is None or D is None: continue
            for fl in fields:
                if fl['n'] not in S or fl['n'] not in own or fl['n'] not in src: continue
                for sub_, want in src[fl['n']].items():
                    got = e.read(D + (fl['n'],) + sub_, st)
                    key = (fl['n'], sub_, got, want)
                    if key in seen: continue
                    seen.add(key); what = '%s carries over %s (%s)' % (lab, fl['n'], how)
                    if got == want: ctx.ok('settings', f, what); continue
                    if any(isinstance(x, tuple) and x and not isinstance(x[0], str) for x in (got, want)): ctx.unk('settings', f, what); continue
                    if kindof(ctx, fl) == 'shared': ctx.unk('settings', f, '%s: is %s' % (what, clip(show(got)))); continue
                    r2 = compare(got, want, None, n=300, seed=ctx.seed)
                    if r2 == 'eq': ctx.ok('settings', f, what)
                    elif r2[0] == 'ne' or plain(got): ctx.bad('settings', f, '%s: is %s, the source has %s' % (what, clip(show(got), 150), clip(show(want), 150)))
                    else: ctx.unk('settings', f, '%s: is %s, the source has %s' % (what, clip(show(got), 150), clip(show(want), 150)))
        # ---- assigning to itself
        if kind == 'assign':
            e = ctx.engine(); st = State()
            st, _ = e.run(f, this=OBJ, args=[OBJ], st=st)
            if st is None: ctx.unk('itself', f, '%s to itself' % lab); continue
            ch = {k: v for k, v in st.store.items() if k[:1] == OBJ and v != ('in', k)}
            bad = {k: v for k, v in ch.items() if isnum(v) or v[0] == 'constarr'}
            if bad: ctx.bad('itself', f, '%s to itself loses %s' % (lab, ', '.join(sorted({str(k[1]) for k in bad}))))
            elif ch: ctx.unk('itself', f, '%s to itself changes %s' % (lab, ', '.join(sorted({str(k[1]) for k in ch}))))
            else: ctx.ok('itself', f, '%s to itself changes nothing' % lab)

def plain(t): return isnum(t) or t[0] in ('bool', 'undef', 'null', 'str') or t[0] == 'in' and t[1][:1] == OBJ or t[0] == 'in' and isinstance(t[1][0], tuple) and t[1][0][0] == 'new'

def whole(e, st, obj, name):
    """{rest of the location: value} of a field (a record is given part by part)"""
    ks = [k for k in st.store if k[:2] == obj + (name,) and not any(isinstance(x, tuple) for x in k[2:])]
    return {k[2:]: st.store[k] for k in ks} or {(): e.read(obj + (name,), st)}

def src(ctx, fl, *rest): return SRC + (fl['n'],) + rest
def dst(ctx, s, fl, *rest): return s.D + (fl['n'],) + rest

def leftover(s, t):
    """what the array is built on"""
    for _ in range(60):
        if t[0] in ('store', 'upd', 'resized'): t = t[1]
        elif t[0] in ('lo', 'phi'): t = s.loops[t[1]].phis[t[2]][0]
        elif t[0] == 'ite' and leftover(s, t[2]) == leftover(s, t[3]): t = t[2]
        else: break
    return t

def vector(ctx, lab, f, s, fl, need):
    size = ('in', src(ctx, fl, '#size')); got = s.read(dst(ctx, s, fl, '#size'))
    what = '%s carries over %s' % (lab, fl['n'])
    sp = [(lambda t: t[0] == 'in' and sem.is_unsigned_leaf(t), lambda r, t: r.choice(SMALL))]
    if owns(ctx, fl): need = True
    if not need: return
    w = None if got == size or not mentions(got, lambda y: y[0] == 'lo') else next((n_ for n_ in range(9) if concrete(s, got, {size: num(n_)}) not in (None, n_)), None)
    if w is not None: ctx.bad('settings', f, '%s: %s of %d elements' % (what, concrete(s, got, {size: num(w)}), w)); return
    r = 'eq' if got == size else compare(got, size, None, n=300, seed=ctx.seed, special=sp)
    if r != 'eq': (ctx.bad if (r[0] == 'ne' or plain(got)) and pure(got) and not opaque(s) else ctx.unk)('settings', f, '%s: has %s elements, the source %s' % (what, clip(show(got)), show(size))); return
    ctx.ok('settings', f, '%s: as many elements' % what)
    if owns(ctx, fl): copies(ctx, what, f, s, fl, size, lambda L: ('kap', L)); return
    subs = [k for k in s.st.store if k[:len(s.D) + 2] == dst(ctx, s, fl, ('[]',))] or [dst(ctx, s, fl, ('[]',))]
    for k in subs:
        a = s.arr(k); b = ('in', SRC + k[len(s.D):])
        if a == b: ctx.ok('settings', f, '%s: the same elements (%s)' % (what, '.'.join(str(x) for x in k[len(s.D) + 1:] if isinstance(x, str)))); continue
        i = ('in', P('i#size')); x = sel(a, ('ix', i)); y = sel(b, ('ix', i))
        r = compare(x, y, None, n=300, seed=ctx.seed, guard=lt(i, size), special=sp)
        (ctx.ok if r == 'eq' else ctx.bad if r[0] == 'ne' and pure(x) else ctx.unk)('settings', f, '%s: element %s' % (what, clip(show(x), 150)))

def concrete(s, t, m, depth=0):
    """value of a term whose inputs are all given, loops run turn by turn"""
    if depth > 5: return None
    F = Facts()
    for _ in range(8):
        t = subst(t, m)
        if t[0] not in ('int', 'bool'): t = F.simp(t)
        if t[0] in ('int', 'bool'): return t[1]
        y = next((y for y in [t] + list(subterms(t)) if y[0] == 'lo' and not any(z[0] == 'lo' and z is not y for z in subterms(y))), None)
        if y is None: return None
        L = y[1]; lp = s.loops[L]
        if lp.T is None or lp.exitcond != FALSE: return None
        n = concrete(s, lp.T, m, depth + 1)
        if n is None or n > 40: return None
        need = [y[2]]
        for k in need: need += [z[2] for x in lp.phis[k] for z in [x] + list(subterms(x)) if z[0] == 'phi' and z[1] == L and z[2] not in need]
        try: cur = {k: concrete(s, lp.phis[k][0], m, depth + 1) for k in need}
        except KeyError: return None
        if any(v is None for v in cur.values()): return None
        for k_ in range(n):
            mm = {**m, ('kap', L): num(k_), **{('phi', L, k): num(v) if not isinstance(v, bool) else ('bool', v) for k, v in cur.items()}}
            cur = {k: concrete(s, lp.phis[k][1], mm, depth + 1) for k in need}
            if any(v is None for v in cur.values()): return None
        v = cur[y[2]]; t = subst(t, {y: num(v) if not isinstance(v, bool) else ('bool', v)})
    return None

def opaque(s): return [e for e in s.log if e.kind == 'call' and e.pc != FALSE]

def mapping(ctx, lab, f, s, fl, need):
    has = ('in', src(ctx, fl, '#has', ('[]',)))
    what = '%s carries over %s' % (lab, fl['n'])
    if not owns(ctx, fl):
        return                                   # room to render into, not a setting
    h = s.arr(dst(ctx, s, fl, '#has', ('[]',))); b = leftover(s, h)
    if h == has: ctx.unk('settings', f, what); return
    if b == ('in', dst(ctx, s, fl, '#has', ('[]',))):
        (ctx.unk if opaque(s) or f.get('kind') == 'ctor' else ctx.bad)('settings', f, '%s: what was there before stays' % what); return
    if b != ('constarr', FALSE): ctx.unk('settings', f, '%s: starts from %s' % (what, clip(show(b)))); return
    ctx.ok('settings', f, '%s: starts empty' % what)
    copies(ctx, what, f, s, fl, ('msize', has), lambda L: ('uf', 'mkey', has, ('kap', L)))

def copies(ctx, what, f, s, fl, count, key):
    """the elements are copy() of the source's, one by one"""
    A = dst(ctx, s, fl, ('[]',))
    front = [e for e in s.log if e.kind == 'push' and e.vec == A[:-1] and e.loops and e.at == ZERO and e.pc == TRUE]
    if front: ctx.bad('settings', front[0], '%s: each element is put before the others' % what); return
    fams = [x for x in families(s, s.arr(A), leftover(s, s.arr(A))) if x.guard != FALSE and x.idx is not None]
    srcarr = ('in', src(ctx, fl, ('[]',)))
    if not fams: (ctx.unk if opaque(s) or any(e.kind == 'icall' and e.q.endswith('::copy') and e.pc != FALSE and mentions(e.this[0][1], lambda y: y == srcarr) for e in s.log if e.kind == 'icall' and e.this and e.this[0][0] == 'deref') else ctx.bad)('settings', f, '%s: the elements are not copied' % what); return
    if len(fams) > 1: ctx.unk('settings', f, '%s: filled in several places' % what); return
    x = fams[0]
    if len(x.loops) != 1: ctx.unk('settings', f, '%s: %d loops' % (what, len(x.loops))); return
    L = x.loops[0]; k = key(L); lp = s.loops[L]
    if x.idx[1] != k:
        r = compare(x.idx[1], k, None, n=300, seed=ctx.seed, special=[(lambda t: True, lambda r, t: r.choice(SMALL))]) if k[0] == 'kap' else ('?',)
        if r != 'eq': (ctx.bad if r[0] == 'ne' and pure(x.idx[1]) else ctx.unk)('settings', f, '%s: turn k fills %s' % (what, show(x.idx[1]))); return
    T_ = x.Ts[0]
    if not (T_ == count or T_[:2] == ('uf', 'msize') and count[0] == 'msize' and T_[2] == count[1] or T_[0] == 'msize' and T_ == count):
        r = compare(T_, count, None, n=300, seed=ctx.seed, special=[(lambda t: True, lambda r, t: r.choice(SMALL))]) if count[0] == 'in' else ('?',)
        if r != 'eq': (ctx.bad if r[0] == 'ne' and pure(T_) else ctx.unk)('settings', f, '%s: %s of %s elements' % (what, show(T_), show(count))); return
    if lp.exitcond != FALSE: (ctx.bad if possible(ctx, lp.exitcond) else ctx.unk)('settings', f, '%s: stops when %s' % (what, clip(show(lp.exitcond)))); return
    g = and_(x.guard, lp.pc); el = ('sel', srcarr, ('ix', k))
    if count[0] == 'in': g = Facts([lt(ZERO, count), lt(('kap', L), count)]).simp(g)
    g = subst(g, {eq(el, ('null',)): FALSE})
    if g != TRUE: (ctx.bad if possible(ctx, not_(g)) else ctx.unk)('settings', f, '%s: an element is copied only when %s' % (what, clip(show(g)))); return
    v = x.val
    if v[0] == 'ite' and v[1][0] == 'has' and v[1][1][:2] == ('phi', L) and k[0] == 'uf': v = v[3]         # it starts empty, and the source's keys differ from each other
    if v[0] == 'ite' and v[1] == eq(el, ('null',)) and v[2] == ('null',): v = v[3]
    iscopyof(ctx, '%s: each element' % what, f, s, v, el)

def iscopyof(ctx, what, f, s, v, el):
    ev = next((e for e in s.log if v[0] == 'ev' and e.id == v[1]), None)
    if v == el: ctx.bad('settings', f, '%s is taken over from the source, not copied' % what)
    elif ev is None or ev.kind != 'icall': (ctx.bad if v[0] == 'null' else ctx.unk)('settings', f, '%s is %s' % (what, clip(show(v), 100)))
    elif ev.q.endswith('::copy') and ev.this and ev.this[0] == ('deref', el): ctx.ok('settings', f, '%s is the copy() of the source\'s' % what)
    elif ev.q.endswith('::move'): ctx.bad('settings', ev, '%s is moved out of the source' % what)
    elif ev.q.endswith('::copy') and ev.this and ev.this[0][0] == 'deref' and pure(ev.this[0][1]): ctx.bad('settings', ev, '%s is the copy of %s' % (what, show(ev.this[0][1])))
    else: ctx.unk('settings', f, '%s is the result of %s' % (what, ev.q))

def owned(ctx, lab, f, s, fl):
    v = s.read(dst(ctx, s, fl)); el = ('in', src(ctx, fl)); what = '%s carries over %s' % (lab, fl['n'])
    F = Facts([not_(eq(el, ('null',)))])
    iscopyof(ctx, what, f, s, F.simp(v) if v[0] == 'ite' else v, el)
    ev = next((e for e in s.log if e.kind == 'icall' and e.q.endswith('::copy') and e.this and e.this[0] == ('deref', el)), None)
    if ev is not None and possible(ctx, and_(ev.pc, eq(el, ('null',)))): ctx.bad('settings', ev, '%s: copies what is not there' % what) if nullable(ctx, s, fl) else ctx.ok('settings', ev, what)

def nullable(ctx, s, fl): return False

def pointed(ctx, lab, f, s, fl):
    v = s.read(dst(ctx, s, fl))
    what = '%s: %s' % (lab, fl['n'])
    if not isinstance(v[0], str) or v[0] in ('null',): return
    if v == ('in', src(ctx, fl)) or mentions(v, lambda y: y[0] == 'in' and y[1][:1] == SRC): ctx.unk('shared', f, '%s is the source\'s' % what)

# ---------------------------------------------------------------- the type of a copy
def typed(ctx, r):
    n = r['q'].split('::')[1]
    f = ctx.method(r, 'copy', 0)
    if f.get('cls') != r['id']: ctx.bad('type', f, '%s: copy() is inherited from %s' % (n, f['q'])); return
    s = ctx.run(f, r, [])
    if s.st is None or s.ret is None: ctx.bad('type', f, '%s: copy() never returns' % n); return
    t = s.ret
    if t[0] == 'null': ctx.bad('type', f, '%s: copy() gives nothing' % n); return
    if t[0] not in ('ptr', 'addr') or not t[1] or not isinstance(t[1][0], tuple) or t[1][0][0] != 'new': ctx.unk('type', f, '%s: copy() gives %s' % (n, clip(show(t)))); return
    loc = t[1]; ty = loc[0][2]
    want = {ctx.prog.ty(r['t'])['s'] if r.get('t') is not None else r['q']}
    got = next((q for q in ctx.prog.recs.values() if ctx.prog.ty(q['t'])['s'] == ty), None) if r.get('t') is not None else None
    if ty in want: ctx.ok('type', f, '%s: copy() makes %s' % (n, ty))
    elif got is not None: ctx.bad('type', f, '%s: copy() makes %s' % (n, ty)); return
    else: ctx.unk('type', f, '%s: copy() makes %s' % (n, ty)); return

# ---------------------------------------------------------------- what is shared
def shared(ctx, r):
    n = r['q'].split('::')[1]
    sh = [fl['n'] for b in lineage(ctx, r) for fl in b['fields'] if kindof(ctx, fl) in ('shared', 'raw')]
    for fl in r['fields']:
        if fl.get('static'): ctx.unk('shared', r['q'], '%s: static member %s' % (n, fl['n']))
    for f in ctx.methods(r):
        if f.get('kind') == 'ctor': continue
        try: s = ctx.run(f, r, sym(ctx, f, 'q'))
        except Exception as x: ctx.unk('shared', f, '%s::%s: %s' % (n, f['n'], x)); continue
        if s.st is None: continue
        for e in s.log:
            if e.kind not in ('write', 'push', 'vclear', 'vresize', 'vassign', 'mclear', 'mapinsert', 'append') or e.pc == FALSE: continue
            l = getattr(e, 'loc', None) or getattr(e, 'vec', None) or getattr(e, 'map', None)
            if not l: continue
            x = l[0]
            if isinstance(x, tuple) and x[0] in ('static', 'global'): (ctx.bad if possible(ctx, e.pc, e.asm) is not False else ctx.unk)('shared', e, '%s::%s changes %s, which all objects share' % (n, f['n'], x[2])); break
            if isinstance(x, tuple) and x[0] == 'deref' and any(y == ('in', ('this', m)) for m in sh for y in [x[1]] + list(subterms(x[1]))):
                ctx.bad('shared', e, '%s::%s changes what a copy of the object also refers to (%s)' % (n, f['n'], showloc(l))); break
        else:
            w = [k for k in s.st.store if isinstance(k[0], tuple) and k[0][0] in ('static', 'global') and k[-1] != '#txt' and isinstance(s.st.store[k], tuple) and s.st.store[k] != ('in', k)]
            w2 = [k for k in s.st.store if isinstance(k[0], tuple) and k[0][0] == 'deref' and any(y == ('in', ('this', m)) for m in sh for y in [k[0][1]] + list(subterms(k[0][1]))) and s.st.store[k] != ('in', k)]
            if w2: ctx.bad('shared', f, '%s::%s changes what a copy of the object also refers to (%s)' % (n, f['n'], showloc(w2[0])))
            elif w: ctx.unk('shared', f, '%s::%s: %s' % (n, f['n'], showloc(w[0])))
            else: ctx.ok('shared', f, '%s::%s changes nothing that is shared' % (n, f['n']))

# ---------------------------------------------------------------- audio buffers
def buffer(ctx):
    r = ctx.rec('hart::AudioBuffer')
    sp = [(lambda t: t[0] == 'in', lambda r, t: r.choice(SMALL))]
    for lab, f, kind in copiers(ctx, r):
        e = ctx.engine(adt_buf=False); st = State(); e.dyn[OBJ] = r['id']
        st, _ = e.run(f, this=OBJ, args=[SRC], st=st); ctx.fns.add(f['q'])
        s = Sum(e, st, None); s.D = OBJ; lab = 'AudioBuffer: ' + lab
        nch, nfr = ('in', SRC + ('m_numChannels',)), ('in', SRC + ('m_numFrames',))
        asm = [eq(('in', OBJ + ('m_numChannels',)), nch)] if kind == 'assign' else []
        for fl in r['fields']:
            k = kindof(ctx, fl); what = '%s carries over %s' % (lab, fl['n'])
            inner = fieldtype(ctx, fl)['s']
            if k == 'value':
                ctx.same('settings', f, s.read(dst(ctx, s, fl)), ('in', src(ctx, fl)), None, what, special=sp, guard=and_(*asm))
            elif k == 'vec':
                A = dst(ctx, s, fl, ('[]',)); a = s.arr(A)
                if '*' in inner:
                    far = [y for y in [a] + list(subterms(a)) if y[0] == 'in' and y[1][:2] == src(ctx, fl) or y[0] == 'ptr' and y[1][:1] == SRC]
                    if far: ctx.bad('shared', f, '%s: the copy\'s channels are kept in the source (%s)' % (lab, clip(show(far[0]))))
                    else:
                        fams = [x for x in families(s, a, ('in', A)) if x.guard != FALSE and x.idx is not None]
                        good = fams and all(mentions(x.val, lambda y: y[0] == 'ptr' and y[1][:1] == OBJ) for x in fams)
                        (ctx.ok if good else ctx.unk)('shared', f, '%s: the copy\'s channels are its own' % lab)
                else:
                    ctx.same('settings', f, s.read(dst(ctx, s, fl, '#size')), ('in', src(ctx, fl, '#size')), None, what + ': as many samples', special=sp, guard=and_(*asm))
                    b = ('in', src(ctx, fl, ('[]',)))
                    if a == b: ctx.ok('settings', f, what)
                    else:
                        i = ('in', P('i#size')); ctx.same('settings', f, sel(a, ('ix', i)), sel(b, ('ix', i)), None, what, special=sp, guard=and_(lt(i, ('in', src(ctx, fl, '#size'))), *asm))
            elif k in ('shared', 'raw'):
                v = s.read(dst(ctx, s, fl)); ctx.must('shared', f, False if v == ('in', src(ctx, fl)) else None, '%s: %s' % (lab, fl['n']))
        if kind == 'assign':
            e = ctx.engine(adt_buf=False); st = State(); e.dyn[OBJ] = r['id']
            st, _ = e.run(f, this=OBJ, args=[OBJ], st=st)
            ch = {k: v for k, v in st.store.items() if k[:1] == OBJ and v != ('in', k)}
            bad = {k: v for k, v in ch.items() if isnum(v) or v[0] == 'constarr'}
            if bad: ctx.bad('itself', f, '%s to itself loses %s' % (lab, ', '.join(sorted({str(k[1]) for k in bad}))))
            else: (ctx.unk if ch else ctx.ok)('itself', f, '%s to itself changes nothing' % lab)
