"""Induction over the operations of AudioBuffer, on its own code (the model of buffers the other checks use is not involved). Invariant: as many samples as
channels x frames, as many channel pointers as channels, and pointer c is sample c x frames of the buffer's own storage. Every
constructor establishes it; every other operation that may change a buffer is summarised from states that satisfy it, with
frames and without, applied to another buffer and to itself, and must re-establish it for each buffer involved; which storage a
pointer refers to is followed through moves, swaps and reallocations. For each operation: channel count kept, frames and
samples as specified (copied, moved, appended per channel, dropped), channel counts that differ refused before anything
changes. Peak queries: refused exactly for channels and ranges outside, computed over the range asked for."""
from .c10 import *

A, B = (('P', 'a'),), (('P', 'b'),)
NCH, NCB, NA, NB = ('in', P('nch#size')), ('in', P('nchb#size')), ('in', P('na#size')), ('in', P('nb#size'))
SP = [(lambda t: t[0] == 'in' and sem.is_unsigned_leaf(t), lambda r, t: r.choice(SMALL))]

class Shape:
    def __init__(self, ctx):
        self.r = r = ctx.rec('hart::AudioBuffer')
        fl = [f for f in r['fields'] if not f.get('static')]
        self.ptrs = [f for f in fl if kindof(ctx, f) == 'vec' and '*' in fieldtype(ctx, f)['s']]
        self.data = [f for f in fl if kindof(ctx, f) == 'vec' and '*' not in fieldtype(ctx, f)['s']]
        if len(self.ptrs) != 1 or len(self.data) != 1: raise Missing('one vector of samples and one of channel pointers')
        self.ptrs = self.ptrs[0]['n']; self.data = self.data[0]['n']
        self.nch = self.getter(ctx, 'getNumChannels'); self.nfr = self.getter(ctx, 'getNumFrames')
        if {self.nch, self.nfr, self.ptrs, self.data} != {f['n'] for f in fl}: raise Missing('members other than channels, frames, samples and pointers')
    def getter(self, ctx, n):
        s = ctx.run(ctx.method(self.r, n, 0), self.r, [])
        if s.ret is None or s.ret[0] != 'in' or s.ret[1][:1] != ('this',) or len(s.ret[1]) != 2: raise Missing('the member behind ' + n)
        return s.ret[1][1]

def check(ctx):
    S = Shape(ctx)
    r = S.r
    for c in ctx.ctors(r):
        if c.get('deleted'): continue
        if not ctx.iscopy(r, c): ctx.guard('invariant', c, value, ctx, S, c)
        else: ctx.guard('invariant', c, special, ctx, S, c)
    for f in ctx.methods(r):
        if f.get('kind') == 'ctor' or f['n'].startswith('~') or f.get('mstatic') or f.get('mconst') or f.get('acc') not in (0, None) or f.get('deleted'): continue
        if f['n'] in ('operator[]', 'getArrayOfWritePointers'): continue
        ctx.guard('invariant', f, operation, ctx, S, f)
    for f in ctx.methods(r, 'operator[]'): ctx.guard('channels', f, channel, ctx, S, f)
    for n in ('getArrayOfReadPointers', 'getArrayOfWritePointers'):
        f = ctx.method(r, n, 0, req=False)
        if f: ctx.guard('channels', f, pointers, ctx, S, f)
    for f in ctx.methods(r, 'emptyLike'): ctx.guard('contents', f, empty, ctx, S, f)
    for f in ctx.methods(r, 'getMagnitude'): ctx.guard('peaks', f, peak, ctx, S, f)

# ---------------------------------------------------------------- states
def state(ctx, S, e, st, at, nch, nfr):
    """any buffer that satisfies the invariant"""
    e.dyn[at] = S.r['id']
    st.store[at + (S.nch,)] = nch; st.store[at + (S.nfr,)] = nfr
    st.store[at + (S.data, '#size')] = mul(nch, nfr); st.store[at + (S.ptrs, '#size')] = nch
    pk = at + (S.ptrs, ('[]',)); st.store[pk] = ('in', pk); dk = at + (S.data, ('[]',)); st.store[dk] = ('in', dk)
    e.given[pk] = (lambda ix, at=at, nfr=nfr: ('ptr', at + (S.data,), mul(ix[1], nfr)) if nfr != ZERO else ('null',))

def storages(S, log, start, objs):
    """which storage each sample vector has at the end, and had when each loop wrote channel pointers"""
    st = {o + (S.data,): ('of', o) for o in objs}; n = [0]; atw = {}
    def fresh():
        n[0] += 1; return ('new', n[0])
    def setst(v, x, pc): st[v] = x if pc == TRUE else ('maybe', st.get(v), x)
    for i, e in enumerate(log):
        if i < start or e.pc == FALSE: continue
        v = getattr(e, 'vec', None)
        if e.kind in ('vassign', 'vmake'):
            if e.move and e.src:
                setst(v, st.get(e.src, ('unknown', e.src)), e.pc); setst(e.src, fresh(), e.pc)
            else: setst(v, fresh(), e.pc)
        elif e.kind == 'vswap': a, b = st.get(v, ('unknown', v)), st.get(e.src, ('unknown', e.src)); setst(v, b, e.pc); setst(e.src, a, e.pc)
        elif e.kind in ('vresize', 'vgrow', 'vmess', 'push'): setst(v, fresh(), e.pc)
        elif e.kind == 'write' and e.loops and e.loc[-1:] and isinstance(e.loc[-1], tuple) and e.loc[-2:-1] == (S.ptrs,): atw[e.loops[-1]] = dict(st)
    return st, atw

def resolve(e, t):
    """elements of the pointer arrays the states started with"""
    for y in [t] + list(subterms(t)):
        if y[0] == 'sel' and y[1][0] == 'in' and y[1][1] in e.given: t = subst(t, {y: e.given[y[1][1]](y[2])})
    return t

def invariant(ctx, S, where, what, e, st, o, nch, nfr, start, objs, F):
    """the buffer at o satisfies the invariant, with nch channels of nfr frames"""
    s = Sum(e, st, None); R = lambda k: F.simp(s.read(o + k))
    same = lambda a, b, w: a == b and ctx.ok('invariant', where, w) is None or ctx.same('invariant', where, a, b, F, w, special=SP)
    same(R((S.nch,)), nch, what + ': channels')
    same(R((S.nfr,)), nfr, what + ': frames')
    same(R((S.data, '#size')), F.simp(mul(nch, nfr)), what + ': as many samples as channels x frames')
    same(R((S.ptrs, '#size')), nch, what + ': a pointer for each channel')
    c = ('in', P('c#size')); F2 = Facts(list(F.facts if hasattr(F, 'facts') else ()) + [lt(c, nch), lt(ZERO, nch)])
    if nch == ZERO: return
    if nfr == ZERO: return ctx.ok('invariant', where, what + ': no frames to point to')
    arr = s.arr(o + (S.ptrs, ('[]',))); v = F2.simp(F.simp(resolve(e, sel(arr, ('ix', c)))))
    w = what + ': each channel has its own frames'
    stor, atw = storages(S, e.log, start, objs)
    now = stor.get(o + (S.data,))
    while v[0] == 'sel' and v[1][0] == 'resized' and v[2] == ('ix', c) and F2.simp(lt(c, v[1][2])) == TRUE: v = F2.simp(F.simp(resolve(e, sel(v[1][1], v[2]))))
    def leaf(v, g):
        if v[0] == 'ite' and pure(v[1]): return leaf(v[2], and_(g, v[1])) or leaf(v[3], and_(g, not_(v[1])))
        return v[0] == 'null' and possible(ctx, and_(g, lt(c, nch), *F.facts), special=SP) and g
    g = leaf(v, TRUE)
    if g: ctx.bad('invariant', where, '%s: the pointer is null%s' % (w, '' if g == TRUE else ' when ' + clip(show(g)))); return
    if v[0] != 'ptr': ctx.unk('invariant', where, '%s: the pointer is %s' % (w, clip(show(v)))); return
    bs = leftover(s, arr)
    Ls = loops_of(arr); made = None
    if Ls: made = atw.get(Ls[0], {}).get(v[1])
    elif arr[0] == 'in' and arr[1] in e.given: made = ('of', v[1][:1])
    if v[1][-1] != S.data: ctx.unk('invariant', where, '%s: the pointer is %s' % (w, clip(show(v)))); return
    r = compare(v[2], mul(c, nfr), F2, n=300, seed=ctx.seed, special=SP, guard=lt(c, nch))
    if made is None or now is None or 'maybe' in (made[0], now[0]): ctx.unk('invariant', where, '%s: storage of %s' % (w, show(v))); return
    if made != now: ctx.bad('invariant', where, '%s: the pointers refer to frames that are %s' % (w, 'the other buffer\'s' if any(stor.get(x + (S.data,)) == made for x in objs) else 'gone')); return
    if r == 'eq': ctx.ok('invariant', where, w)
    elif pure(v[2]) and r[0] == 'ne': ctx.bad('invariant', where, '%s: channel c starts at sample %s' % (w, show(v[2])))
    else: ctx.unk('invariant', where, '%s: channel c starts at sample %s' % (w, show(v[2])))

def loops_of(t):
    """loops that wrote the elements, last first"""
    out = []
    for _ in range(40):
        if t[0] == 'upd': out += [L for L in t[2] if L not in out]; t = t[1]
        elif t[0] in ('store', 'resized'): t = t[1]
        else: break
    return out

def facts(*fs): 
    F = Facts([f for f in fs if f != TRUE]); F.facts = [f for f in fs if f != TRUE]; return F

def runs(ctx, S, f, ctor, two=True):
    """(label, engine, state before, run) for buffers with and without frames"""
    def conf(na, nb, alias):
        e = ctx.engine(adt_buf=False); st = State()
        state(ctx, S, e, st, A, NCH, na)
        if not alias: state(ctx, S, e, st, B, NCH, nb)
        return e, st
    for na in (NA, ZERO):
        for nb in (NB, ZERO):
            yield na, nb, False, conf(na, nb, False)
    for na in (NA, ZERO): yield na, na, True, conf(na, na, True)

def label(na, nb, alias, one=False):
    if alias: return 'itself' + ('' if na != ZERO else ', empty')
    if one: return 'with frames' if na != ZERO else 'empty'
    return '%s and %s' % ('frames' if na != ZERO else 'empty', 'frames' if nb != ZERO else 'empty')

# ---------------------------------------------------------------- operations
def value(ctx, S, c):
    if len(c['params']) != 2: raise Missing('constructor with channels and frames')
    for nfr in (NA, ZERO):
        e = ctx.engine(adt_buf=False); st = State(); e.dyn[A] = S.r['id']
        st, _ = e.run(c, this=A, args=[NCH, nfr], st=st); ctx.fns.add(c['q'])
        F = facts(*([lt(ZERO, NA)] if nfr != ZERO else []))
        for k, v in list(st.store.items()):
            if isinstance(v, tuple) and v and isinstance(v[0], str) and k[0] != '&': st.store[k] = subst(v, {lt(ZERO, NA): TRUE})
        invariant(ctx, S, c, 'new buffer' + ('' if nfr != ZERO else ' without frames'), e, st, A, NCH, nfr, 0, [A], F)
        d = e.read_arr(A + (S.data, ('[]',)), st)
        ctx.must('contents', c, True if d[0] == 'constarr' and d[1] in (ZERO, ('flt', 0.0)) else None, 'a new buffer is silent')

def buf(ctx, p):
    t = ctx.prog.strip(p['t']); return t['s'].replace('const ', '').startswith('hart::AudioBuffer') and ctx.prog.ty(p['t'])['k'] in ('ref', 'rref')

def special(ctx, S, c): operation(ctx, S, c, ctor=True)

def positive(st, *ns):
    for k, v in list(st.store.items()):
        if isinstance(v, tuple) and v and isinstance(v[0], str) and k[0] != '&': st.store[k] = subst(v, {lt(ZERO, n): TRUE for n in ns if n != ZERO})

def operation(ctx, S, f, ctor=False):
    ps = f['params']; nb_ = [p for p in ps if buf(ctx, p)]
    if len(nb_) > 1: raise Missing('operations on three buffers')
    mv = bool(nb_) and ctx.prog.ty(nb_[0]['t'])['k'] == 'rref' or f['n'] == 'swap'
    kind = ('move' if mv else 'copy') if f['n'] == 'operator=' or ctor else f['n']
    name = 'AudioBuffer: ' + ({'copy': 'copy constructor', 'move': 'move constructor'}[kind] if ctor else {'copy': 'copy assignment', 'move': 'move assignment'}.get(kind, f['n']))
    for na, nb, alias, (e, st) in runs(ctx, S, f, ctor):
        if not nb_ and (alias or nb == ZERO): continue
        if ctor and (alias or na == ZERO): continue
        if ctor:
            for k in [k for k in st.store if k[:1] == A]: del st.store[k]
            for k in [k for k in e.given if k[:1] == A]: del e.given[k]
        o = A if alias else B
        args = [o if buf(ctx, p) else (P(p['n']) if ctx.prog.ty(p['t'])['k'] in ('ref', 'rref') else ('in', P(p['n'] + '#size'))) for p in ps]
        pre = dict(st.store); m = len(e.log)
        st, ret = e.run(f, this=A, args=args, st=st); ctx.fns.add(f['q'])
        what = '%s (%s)' % (name, label(na, nb, alias, not nb_) if not ctor else label(nb, nb, False, True))
        if st is None: ctx.bad('contents', f, '%s always refuses' % what); continue
        F = facts(*[lt(ZERO, n) for n in (na, nb) if n != ZERO and not (ctor and n == na)])
        lost = [v for v in e.log[m:] if v.kind in ('call', 'icall', 'indirect') and v.pc != FALSE]
        if lost: ctx.unk('invariant', lost[0], '%s: effect of %s' % (what, getattr(lost[0], 'q', '?'))); continue
        for v in e.log[m:]:
            pc = F.simp(v.pc)
            if v.kind != 'throw' or pc == FALSE: continue
            if pure(pc) and not v.loops and possible(ctx, pc, special=SP): ctx.bad('contents', v, '%s: refused%s' % (what, '' if pc == TRUE else ' when ' + clip(show(pc))))
            elif not pure(pc) or v.loops: ctx.unk('contents', v, '%s: refused when %s' % (what, clip(show(pc))))
        positive(st, na, nb); s = Sum(e, st, None)
        nfr = {'copy': nb, 'move': nb, 'appendFrom': add(na, nb), 'clear': ZERO}.get(kind, F.simp(s.read(A + (S.nfr,))))
        if alias and kind in ('copy', 'move'): nfr = na
        objs = [A] if alias else [A, B] if nb_ else [A]
        F = facts(*(F.facts + ([lt(ZERO, nfr)] if nfr not in (ZERO, na, nb) and (na != ZERO or nb != ZERO) and kind == 'appendFrom' else [])))
        invariant(ctx, S, f, what, e, st, A, NCH, nfr, m, objs, F)
        if nb_ and not alias:
            nfo = F.simp(s.read(B + (S.nfr,)))
            invariant(ctx, S, f, what + ', the other buffer', e, st, B, NCH, nfo if mv or kind not in ('copy', 'appendFrom') else nb, m, objs, F)
        ctx.guard('contents', f, contents, ctx, S, f, kind, what, e, s, na, nb, nfr, alias, F)
    if nb_ and not ctor: ctx.guard('refused', f, mismatch, ctx, S, f, name, nb_)

def mismatch(ctx, S, f, name, nb_):
    e = ctx.engine(adt_buf=False); st = State()
    state(ctx, S, e, st, A, NCH, NA); state(ctx, S, e, st, B, NCB, NB)
    args = [B if buf(ctx, p) else ('in', P(p['n'] + '#size')) for p in f['params']]
    m = len(e.log); st, ret = e.run(f, this=A, args=args, st=st)
    dif = not_(eq(NCH, NCB)); what = '%s, different channel counts' % name
    t = [v for v in e.log[m:] if v.kind == 'throw' and v.pc != FALSE and not v.loops]
    th = or_(FALSE, *[v.pc for v in t])
    if any(v.kind == 'throw' and v.loops for v in e.log[m:]) or not pure(th): ctx.unk('refused', f, '%s: refused when %s' % (what, clip(show(th)))); return
    if possible(ctx, and_(dif, not_(th)), special=SP): ctx.bad('refused', f, '%s: %s' % (what, 'not refused' if th == FALSE else 'refused only when ' + clip(show(th)))); return
    for v in e.log[m:]:
        if v.kind in ('write', 'push', 'vassign', 'vclear', 'vresize', 'vmake', 'vswap', 'vgrow', 'append') and v.pc != FALSE:
            l = getattr(v, 'vec', None) or v.loc
            if l[:1] not in (A, B): continue
            if not pure(v.pc): ctx.unk('refused', v, '%s: changed when %s' % (what, clip(show(v.pc)))); return
            if possible(ctx, and_(v.pc, dif, not_(or_(FALSE, *[x.pc for x in t if x.id < v.id]))), special=SP): ctx.bad('refused', v, '%s: %s has changed by then' % (what, showloc(l))); return
    ctx.ok('refused', f, '%s: refused, unchanged' % what)

# ---------------------------------------------------------------- contents
def contents(ctx, S, f, kind, what, e, s, na, nb, nfr, alias, F):
    d = s.arr(A + (S.data, ('[]',))); da, db = ('in', A + (S.data, ('[]',))), ('in', (A if alias else B) + (S.data, ('[]',)))
    if kind in ('copy', 'move'):
        want = da if alias else db
        w = what + ': the samples are the source\'s'
        if d == want or nfr == ZERO: ctx.ok('contents', f, w)
        else: samples(ctx, f, w, e, s, d, NCH, nfr, lambda c, k: sel(want, ('ix', add(mul(c, nfr), k))), F)
        if kind == 'copy' and not alias:
            (ctx.ok if s.arr(B + (S.data, ('[]',))) == db else ctx.unk)('contents', f, what + ': the source is unchanged')
    elif kind == 'appendFrom':
        if nfr == ZERO: ctx.ok('contents', f, what + ': nothing to keep'); return
        def want(c, k):
            a = sel(da, ('ix', add(mul(c, na), k))); b = sel(db, ('ix', add(mul(c, nb), sub(k, na))))
            return b if na == ZERO else a if nb == ZERO else ite(lt(k, na), a, b)
        samples(ctx, f, what + ': each channel\'s frames, then the other\'s', e, s, d, NCH, nfr, want, F)
        if not alias: (ctx.ok if s.arr(B + (S.data, ('[]',))) == db else ctx.unk)('contents', f, what + ': the source is unchanged')
    elif kind == 'clear': ctx.ok('contents', f, what + ': no frames left') if nfr == ZERO else None
    else: ctx.ok('contents', f, what + ': nothing specified')

def samples(ctx, f, what, e, s, d, nch, nfr, want, F):
    """every sample of the storage d, nch x nfr, is as wanted"""
    try: fams = [x for x in families(s, d, leftover(s, d)) if x.guard != FALSE]
    except Exception as x: ctx.unk('contents', f, '%s: %s' % (what, x)); return
    fams = [x for x in fams if x.idx is not None]
    w = witness(ctx, s, d, fams, nch, nfr, want)
    if w == 'unknown': ctx.unk('contents', f, '%s: %s' % (what, clip(show(d)))); return
    if w is not None: ctx.bad('contents', f, '%s: %s' % (what, w)); return
    # every family writes wanted values at its place, and the families' places make up the whole
    spans = []
    for x in fams:
        if len(x.loops) != 2 or x.guard != TRUE: ctx.unk('contents', f, '%s: written by %d loops' % (what, len(x.loops))); return
        c, k = ('kap', x.loops[0]), ('kap', x.loops[1])
        off = F.simp(subst(x.idx[1], {c: ZERO, k: ZERO}))
        T_ = x.Ts[1]; g = and_(lt(c, x.Ts[0]), lt(k, T_))
        r1 = compare(x.idx[1], add(add(mul(c, nfr), off), k), F, n=300, seed=ctx.seed, special=SP, guard=g)
        r2 = compare(x.val, want(c, add(off, k)), F, n=300, seed=ctx.seed, special=SP, guard=g)
        r3 = compare(x.Ts[0], nch, F, n=300, seed=ctx.seed, special=SP)
        if (r1, r2, r3) != ('eq', 'eq', 'eq'): ctx.unk('contents', f, '%s: %s' % (what, clip(show(x.val)))); return
        spans.append((off, T_))
    at = ZERO
    while spans:
        nx = next((p for p in spans if p[0] == at or compare(p[0], at, F, n=200, seed=ctx.seed, special=SP) == 'eq'), None)
        if nx is None: ctx.unk('contents', f, '%s: the parts do not meet at %s' % (what, show(at))); return
        spans.remove(nx); at = add(at, nx[1])
    if at == nfr or compare(at, nfr, F, n=200, seed=ctx.seed, special=SP) == 'eq': ctx.ok('contents', f, what)
    else: ctx.unk('contents', f, '%s: %s of %s frames' % (what, show(at), show(nfr)))

def witness(ctx, s, d, fams, nch, nfr, want):
    """a small buffer whose contents come out wrong; None, or 'unknown'"""
    for x in fams:
        for y in [x.idx[1], x.val, x.guard] + list(x.Ts):
            if any(z[0] in ('ev', 'evout', 'lo', 'phi', 'uf', 'undef') for z in [y] + list(subterms(y))): return 'unknown'
    for n_, a_, b_ in ((1, 1, 1), (2, 1, 2), (2, 2, 1), (3, 2, 3), (1, 3, 2), (2, 3, 3)):
        m = {NCH: num(n_), NA: num(a_), NB: num(b_)}
        got = {}
        for x in fams:
            ok = enum(s, x, m, got)
            if not ok: return 'unknown'
        nf = Facts().simp(subst(nfr, m))
        if nf[0] != 'int': return 'unknown'
        for c in range(n_):
            for k in range(nf[1]):
                g = got.get(c * nf[1] + k); w = Facts().simp(subst(want(num(c), num(k)), m))
                if g is None:
                    if fams: return 'frame %d of channel %d of %d x %d is not written' % (k, c, n_, nf[1])
                    return 'unknown'
                if g != w: return 'frame %d of channel %d of %d channels, %d + %d frames, is %s and not %s' % (k, c, n_, a_, b_, show(g), show(w))
    return None

def enum(s, x, m, got):
    import itertools
    def go(i, mm):
        if i == len(x.loops):
            F = Facts(); g = F.simp(subst(x.guard, mm))
            if g == FALSE: return True
            ix = F.simp(subst(x.idx[1], mm)); v = F.simp(subst(x.val, mm))
            if g != TRUE or ix[0] != 'int': return False
            if ix[1] in got and got[ix[1]] != v and x.key() != got.get(('by', ix[1])): return False          # order matters
            got[ix[1]] = v; got[('by', ix[1])] = x.key(); return True
        T_ = Facts().simp(subst(x.Ts[i], mm))
        if T_[0] != 'int' or T_[1] > 60: return False
        return all(go(i + 1, {**mm, ('kap', x.loops[i]): num(j)}) for j in range(T_[1]))
    return go(0, dict(m))

# ---------------------------------------------------------------- queries
def channel(ctx, S, f):
    for nfr in (NA, ZERO):
        e = ctx.engine(adt_buf=False); st = State(); state(ctx, S, e, st, A, NCH, nfr); c = ('in', P('c#size'))
        st, ret = e.run(f, this=A, args=[c], st=st)
        if st is None or ret is None: ctx.bad('channels', f, 'operator[] never returns'); return
        if nfr == ZERO: ctx.ok('channels', f, 'operator[] of an empty buffer'); continue
        F = facts(lt(c, NCH), lt(ZERO, NA)); ret = F.simp(resolve(e, ret))
        if ret[0] == 'ptr' and ret[1] == A + (S.data,): ctx.same('channels', f, ret[2], mul(c, NA), F, 'operator[] (c) is channel c', special=SP, guard=lt(c, NCH))
        else: ctx.unk('channels', f, 'operator[] gives %s' % clip(show(ret)))

def pointers(ctx, S, f):
    s = ctx.run(f, S.r, [])
    e = ctx.engine(adt_buf=False); st = State(); state(ctx, S, e, st, A, NCH, NA); st, ret = e.run(f, this=A, args=[], st=st)
    if ret == ('ptr', A + (S.ptrs,), ZERO): ctx.ok('channels', f, '%s gives the channel pointers' % f['n'])
    elif ret is not None and ret[0] == 'ptr' and pure(ret[2]) and ret[1] == A + (S.ptrs,): ctx.bad('channels', f, '%s starts at channel %s' % (f['n'], show(ret[2])))
    else: ctx.unk('channels', f, '%s gives %s' % (f['n'], clip(show(ret)) if ret else ret))

def empty(ctx, S, f):
    e = ctx.engine(adt_buf=False); st = State(); state(ctx, S, e, st, B, NCH, NB); st, ret = e.run(f, this=None, args=[B], st=st)
    if ret is None or ret[0] not in ('obj', 'loc'): raise Missing('what emptyLike makes')
    o = ret[1]; s = Sum(e, st, None)
    ctx.same('contents', f, s.read(o + (S.nch,)), NCH, None, 'emptyLike: as many channels', special=SP)
    ctx.same('contents', f, s.read(o + (S.nfr,)), NB, None, 'emptyLike: as many frames', special=SP)
    d = s.arr(o + (S.data, ('[]',))); ctx.must('contents', f, True if d[0] == 'constarr' and d[1] in (ZERO, ('flt', 0.0)) else None, 'emptyLike: silent')

def peak(ctx, S, f):
    ps = f['params']; by = {p['n']: ('in', P(p['n'] + '#size')) for p in ps}; args = list(by.values())
    if len(args) not in (2, 3): raise Missing('arguments of getMagnitude')
    ch = args[0] if len(args) == 3 else None; start, cnt = args[-2:]
    e = ctx.engine(adt_buf=False); st = State(); state(ctx, S, e, st, A, NCH, NA)
    m = len(e.log); st, ret = e.run(f, this=A, args=args, st=st); ctx.fns.add(f['q'])
    what = 'getMagnitude (%s)' % ', '.join(by)
    er = ctx.engine(adt_buf=False); er.rawu = True; st2 = State(); state(ctx, S, er, st2, A, NCH, NA); m2 = len(er.log)
    er.run(f, this=A, args=args, st=st2)
    th = [(v.pc, v.loops) for v in er.log[m2:] if v.kind == 'throw' and v.pc != FALSE]
    def refused(mm):
        res = False
        for pc, loops in th:
            if not loops: x = eval64(subst(pc, mm))
            elif len(loops) == 1 and er.loops[loops[0]].T is not None:
                T_ = num64(subst(er.loops[loops[0]].T, mm))
                if T_ is None or T_ > 10: return None
                xs = [eval64(subst(pc, {**mm, ('kap', loops[0]): num(i)})) for i in range(T_)]
                x = None if None in xs else any(xs)
            else: return None
            if x is None: return None
            res = res or x
        return res
    U = 2 ** 64
    vals = [0, 1, 2, 3, 5, U - 1, U - 2, U // 2]
    bad = None; n = 0
    import itertools
    for nch, nfr, c, a, k in itertools.product((0, 1, 2) if ch else (1, 2), (0, 1, 3), (0, 1, 2, U - 1) if ch else (0,), vals, vals):
        out = (ch is not None and c >= nch) or a + k > nfr
        if k == 0 and not (ch is not None and c >= nch): continue
        mm = {NCH: num(nch), NA: num(nfr), start: num(a), cnt: num(k)}
        if ch: mm[ch] = num(c)
        v = refused(mm)
        n += 1
        if v is None: bad = 'unknown'; break
        if v != out: bad = 'channel %s of %d, %d frames from %d of %d: %s' % (c if ch else '(all)', nch, k, a, nfr, 'accepted' if out else 'refused'); break
    if bad == 'unknown': ctx.unk('peaks', f, '%s: refused when %s' % (what, clip(show(or_(FALSE, *[x for x, _ in th])))))
    elif bad: ctx.bad('peaks', f, '%s: %s' % (what, bad))
    else: ctx.ok('peaks', f, '%s: refused exactly outside (%d cases)' % (what, n))
    if st is None: ctx.bad('peaks', f, '%s never returns' % what); return
    best = [v for v in e.log[m:] if v.kind == 'best' and v.pc != FALSE]
    if len(best) == 1:
        b = best[0]; fst = resolve(e, b.first) if b.first[0] != 'ptr' else b.first
        c = ch if ch is not None else (('kap', b.loops[-1]) if b.loops else None)
        if c is None: ctx.unk('peaks', f, '%s: which channels' % what); return
        g = and_(lt(c, NCH), le(add(start, cnt), NA)); F = facts(lt(c, NCH), lt(ZERO, NA))
        if fst[0] == 'ptr' and fst[1] == A + (S.data,):
            ctx.same('peaks', f, F.simp(fst[2]), add(mul(c, NA), start), F, '%s: from the first frame asked for' % what, special=SP, guard=g)
        else: ctx.unk('peaks', f, '%s: from %s' % (what, clip(show(fst))))
        ctx.same('peaks', f, b.cnt, cnt, F, '%s: as many frames as asked for' % what, special=SP, guard=g)
        aa, bb = ('in', 'a'), ('in', 'b')
        if b.cmp is None: ctx.bad('peaks', f, '%s: samples compared with their sign' % what)
        else:
            fsp = [(lambda t: t in (aa, bb), lambda r, t: r.choice([-2.0, -1.0, -.5, 0.0, .5, 1.0, 2.0]))]
            wt = lt(absf(aa), absf(bb)) if b.n == 'max_element' else lt(absf(bb), absf(aa))
            r = compare(b.cmp, wt, None, n=300, seed=ctx.seed, special=fsp, want='b')
            (ctx.ok if r == 'eq' else ctx.bad if r[0] == 'ne' else ctx.unk)('peaks', f, '%s: the sample of the greatest magnitude%s' % (what, '' if r == 'eq' else ': compared by %s' % show(b.cmp)))
        if ch is not None:
            x = sel(('in', A + (S.data, ('[]',))), ('ix', b.which)); r = compare(ret, absf(x), None, n=200, seed=ctx.seed) if ret is not None and mentions(ret, lambda y: y == b.which) else ('?',)
            (ctx.ok if r == 'eq' else ctx.bad if r[0] == 'ne' else ctx.unk)('peaks', f, '%s: its magnitude' % what)
        else:
            lp = e.loops[b.loops[-1]] if b.loops else None
            if lp is None: ctx.unk('peaks', f, '%s: which channels' % what); return
            ctx.same('peaks', f, lp.T, NCH, None, '%s: every channel' % what, special=SP) if lp.T is not None else ctx.unk('peaks', f, '%s: which channels' % what)
            x = sel(('in', A + (S.data, ('[]',))), ('ix', b.which))
            if ret[0] == 'red' and ret[1] == 'max':
                v = ret[3]; z = ret[4] in (ZERO, ('flt', 0.0), ('flt', -0.0))
                r = compare(v, absf(x), None, n=300, seed=ctx.seed)
                (ctx.ok if r == 'eq' and z else ctx.bad if r[0] == 'ne' else ctx.unk)('peaks', f, '%s: the greatest of the channels%s' % (what, '' if r == 'eq' else ': %s' % clip(show(v)))); return
            k = next((k for k, (i, nx) in lp.phis.items() if ret == ('lo', b.loops[-1], k)), None)
            if k is None: ctx.unk('peaks', f, '%s: the greatest of the channels' % what); return
            i, nx = lp.phis[k]; me = ('phi', b.loops[-1], k); vals = [0.0, .5, 1.0, 2.0]
            if not mentions(nx, lambda y: y == me): ctx.bad('peaks', f, '%s: the last channel\'s' % what); return
            r = compare(nx, tmax(me, absf(x)), None, n=300, seed=ctx.seed, special=[(lambda t: t == me or t == x, lambda r, t: r.choice(vals))])
            z = i in (ZERO, ('flt', 0.0), ('flt', -0.0))
            (ctx.ok if r == 'eq' and z else ctx.bad if r[0] == 'ne' else ctx.unk)('peaks', f, '%s: the greatest of the channels%s' % (what, '' if r == 'eq' else ': %s' % clip(show(nx))))
    else: scanned(ctx, f, what, e, ret, ch, start, cnt, best)

def scanned(ctx, f, what, e, ret, ch, start, cnt, best):
    """the peak as a running maximum"""
    w = '%s: the greatest magnitude of the frames asked for' % what
    reds = []; t = ret
    while t is not None and t[0] == 'red' and t[1] == 'max': reds.append(t); t = t[3]
    L = [x[2] for x in reds]
    if best or len(reds) != (1 if ch is not None else 2) or t is None: ctx.unk('peaks', f, '%s: how the peak is found' % what); return
    if ch is not None: c, k = ch, ('kap', L[0])
    elif e.loops[L[0]].T == NCH: c, k = ('kap', L[0]), ('kap', L[1])
    else: c, k = ('kap', L[1]), ('kap', L[0])
    g = and_(lt(c, NCH), lt(k, cnt), le(add(start, cnt), NA))
    F = facts(lt(c, NCH), lt(ZERO, NA))
    want = tabs(sel(('in', A + (S_data(t), ('[]',))), ('ix', add(mul(c, NA), add(start, k)))))
    t = F.simp(resolve(e, t))
    r = compare(t, want, F, n=300, seed=ctx.seed, special=SP, guard=g)
    if r != 'eq' or any(x[4] not in (ZERO, ('flt', 0.0), ('flt', -0.0)) for x in reds): ctx.unk('peaks', f, '%s: %s' % (w, clip(show(t)))); return
    ctx.same('peaks', f, e.loops[k[1]].T, cnt, None, '%s: as many frames as asked for' % what, special=SP)
    if ch is None: ctx.same('peaks', f, e.loops[c[1]].T, NCH, None, '%s: every channel' % what, special=SP)
    ctx.ok('peaks', f, w)

def S_data(t):
    for y in [t] + list(subterms(t)):
        if y[0] == 'sel' and y[1][0] == 'in': return y[1][1][1]
    return '?'

absf = tabs

def eval64(t):
    """a condition on concrete 64-bit numbers, with wrap-around"""
    U = 2 ** 64
    def ev(t):
        o = t[0]
        if o in ('int', 'bool'): return t[1]
        if o == 'not': return not ev(t[1])
        if o == 'and': return all(ev(x) for x in t[1:])
        if o == 'or': return any(ev(x) for x in t[1:])
        if o == 'lt': return ev(t[1]) < ev(t[2])
        if o == 'le': return ev(t[1]) <= ev(t[2])
        if o == 'eq': return ev(t[1]) == ev(t[2])
        if o == 'add': return sum(ev(x) for x in t[1:]) % U
        if o == 'mul':
            p = 1
            for x in t[1:]: p = p * ev(x) % U
            return p
        if o == 'sub': return (ev(t[1]) - ev(t[2])) % U
        if o == 'uf' and t[1] in ('u+', 'u-', 'u*'):
            a, b = ev(t[2]), ev(t[3]); return (a + b if t[1] == 'u+' else a - b if t[1] == 'u-' else a * b) % U
        if o == 'neg': return -ev(t[1]) % U
        if o == 'ite': return ev(t[2]) if ev(t[1]) else ev(t[3])
        raise KeyError(o)
    try: return ev(t)
    except KeyError: return None

def num64(t):
    v = eval64(t); return None if v is None else int(v)
