"""Summaries of the effect base class and of everything that runs effects. Attaching, in every form, asks that very effect about
that very parameter; unless the answer is no (then an error is raised and the table of envelopes stays as it was) that parameter
ends up with a copy of the given envelope, whatever was there before, and no other entry changes. Preparing gives exactly the
parameters with an envelope a value buffer. Processing renders every buffer's parameter's own envelope once per block, into that
buffer, for at least the block's frames, leaves the values alone afterwards, and hands all of them to the effect; every host
runs effects this way. Each stock effect reads automation for exactly the parameters it says it supports."""
from .common import *
from .proc import *
from . import c05

D = P('dsp'); ID = ('in', P('id')); ANY = ('in', P('other'))

def fields(ctx):
    rec = ctx.rec('hart::DSP'); ev = []; bf = []
    for f in rec['fields']:
        t = ctx.prog.strip(f['t'])
        if 'map' not in (t.get('q') or ''): continue
        (ev if 'hart::Envelope' in t['s'] else bf if 'vector' in t['s'] else []).append(f['n'])
    if len(ev) != 1 or len(bf) != 1: raise Missing('tables of envelopes and of their values')
    return rec, D + (ev[0],), D + (bf[0],)

def check(ctx):
    ctx.guard('attaching', 'withEnvelope', attach, ctx)
    ctx.guard('prepared', 'prepareWithEnvelopes', prepare, ctx)
    ctx.guard('applied', 'processWithEnvelopes', apply, ctx)
    ctx.guard('hosts', 'hosts', hosts, ctx)
    ctx.guard('stock effects', 'stock effects', stock, ctx)

def has(E): return E + ('#has', ('[]',))

def attach(ctx):
    rec, E, B = fields(ctx)
    fs = [f for f in ctx.methods(rec) if f['n'] == 'withEnvelope' and len(f['params']) == 2]
    if not fs: raise Missing('withEnvelope')
    for f in fs:
        lab = 'withEnvelope (%s)' % ', '.join(ctx.prog.ty(p['t'])['s'] for p in f['params'])
        s = ctx.run(f, None, [ID, P('env')], this=D[0])
        q = [e for e in s.log if e.kind == 'icall' and e.n == 'supportsEnvelopeFor']
        good = [e for e in q if e.this == D and e.pc == TRUE and not e.loops and (e.args[0] == ID or ctx_same(ctx, e.args[0], ID))]
        if not good:
            other = [e for e in s.log if e.kind in ('icall', 'call') and e.n not in ('copy',)]
            (ctx.unk if other and not q else ctx.bad)('attaching', f, '%s: the effect is not asked about this parameter%s' % (lab, '' if not q else ' (asks %s about %s)' % (showloc(q[0].this), clip(show(q[0].args[0]), 80)))); continue
        yes = ('ev', good[0].id, 'supportsEnvelopeFor')   # asked again, the effect gives the same answer
        good += [g for g in q if g not in good and g.this == D and not g.loops and g.args[0] == ID]
        again = {('ev', g.id, 'supportsEnvelopeFor'): yes for g in good[1:]}
        H0 = ('in', has(E)); M0 = ('in', E + (('[]',),))
        cp = [e for e in s.log if e.kind == 'icall' and e.n == 'copy' and e.q == 'hart::Envelope::copy' and e.this == P('env')]
        # refused: raised, nothing changed
        thr = or_(*[x.pc if hasattr(x, 'pc') else x[0].pc for x in s.throws]) if s.throws else FALSE
        thr = subst(thr, again)
        for x in s.throws:
            st = x[0]
            for k in (has(E), E + (('[]',),)):
                v = st.store.get(k)
                if v is not None and v != ('in', k):
                    (ctx.bad if pure(v) else ctx.unk)('attaching', f, '%s: a refused envelope changes %s all the same' % (lab, showloc(k)))
        ctx.gsame('attaching', f, thr, not_(yes), TRUE, '%s: refused with an error exactly when the effect says no' % lab)
        h = subst(s.arr(has(E)), again); m = subst(s.arr(E + (('[]',),)), again)
        ctx.gsame('attaching', f, sel(h, ('ix', ID)), TRUE, yes, '%s: the parameter has an envelope afterwards' % lab)
        distinct = and_(yes, not_(eq(ANY, ID)))
        ctx.gsame('attaching', f, sel(h, ('ix', ANY)), sel(H0, ('ix', ANY)), distinct, '%s: no other parameter gets or loses an envelope' % lab)
        F = Facts([yes]); v = F.simp(sel(m, ('ix', ID)))
        cps = [('ev', e.id, 'copy') for e in cp]
        def leaves(t): return leaves(t[2]) + leaves(t[3]) if t[0] == 'ite' else [t]
        if cps and all(x in cps for x in leaves(v)): ctx.ok('attaching', f, '%s: the parameter keeps a copy of the given envelope' % lab)
        elif v == ('in', P('env')) or v == P('env'): ctx.ok('attaching', f, '%s: takes over the given envelope' % lab)
        else:
            old = [y for y in [v] + list(subterms(v)) if y == ('sel', M0, ('ix', ID))]
            (ctx.bad if old and pure(v) else ctx.unk)('attaching', f, '%s: the parameter then has %s%s' % (lab, clip(show(v), 160), ', so an earlier envelope may stay' if old else ''))
        o = Facts([yes, not_(eq(ANY, ID))]).simp(sel(m, ('ix', ANY)))
        ctx.must('attaching', f, True if o == ('sel', M0, ('ix', ANY)) else (False if pure(o) and o[0] == 'ev' else None), '%s: other parameters keep their envelopes' % lab)
        for e in s.log:
            if e.kind == 'call' and e.pc != FALSE: ctx.unk('attaching', e, '%s: calls %s' % (lab, e.q))

def ctx_same(ctx, a, b): return compare(a, b, None, n=100, seed=ctx.seed) == 'eq'

def keyloop(s, e):
    """(key, table) of a call inside one loop over all entries of a table"""
    L = e.loops[-1]; lp = s.loops[L]
    return L, lp

def allkeys(lp, H):
    """does the loop run once for every key of H"""
    return lp.T == ('uf', 'msize', H) and lp.exitcond == FALSE

def entry(loc):
    """(table, key) of the object an entry of a table of pointers points to"""
    if loc and isinstance(loc[0], tuple) and loc[0][0] == 'deref' and len(loc) == 1:
        t = loc[0][1]
        if t[0] == 'sel' and t[1][0] == 'in' and t[2][0] == 'ix' and len(t[2]) == 2: return t[1][1][:-1], t[2][1]
    return None

def prepare(ctx):
    rec, E, B = fields(ctx); f = ctx.method(rec, 'prepareWithEnvelopes', 4)
    s = ctx.run(f, None, [('in', P(n)) for n in ('rate', 'nin', 'nout', 'max')], this=D[0])
    H = s.arr(has(B)); EH = ('in', has(E)); what = 'exactly the parameters with an envelope get a value buffer'
    if H[0] == 'upd' and H[1] == ('constarr', FALSE) and len(H) >= 7:
        L = H[2] if not isinstance(H[2], tuple) else (H[2][0] if len(H[2]) == 1 else None)
        key = ('uf', 'mkey', EH, ('kap', L))
        if H[3] == ('ix', key) and H[4] == TRUE and H[5] == TRUE and L in s.loops and allkeys(s.loops[L], EH) and s.loops[L].pc == TRUE: ctx.ok('prepared', f, what)
        elif H[3] == ('ix', key) and H[4] == TRUE and L in s.loops:
            c = and_(H[5], s.loops[L].pc)
            (ctx.bad if possible(ctx, not_(c)) or s.loops[L].exitcond != FALSE and possible(ctx, s.loops[L].exitcond) else ctx.unk)('prepared', f, '%s: only when %s' % (what, clip(show(c))))
        else: ctx.unk('prepared', f, '%s: %s' % (what, clip(show(H))))
    elif H == ('constarr', FALSE): ctx.bad('prepared', f, what + ': none does')
    elif H == EH: ctx.ok('prepared', f, what)
    elif H == ('in', has(B)): (ctx.unk if [e for e in s.log if e.kind == 'call'] else ctx.bad)('prepared', f, what + ': the buffers are left as they were')
    else: ctx.unk('prepared', f, '%s: %s' % (what, clip(show(H))))
    h = s.arr(has(E)); ctx.must('prepared', f, True if h == EH or h[0] == 'lo' else None, 'preparing attaches and detaches nothing')

def apply(ctx):
    rec, E, B = fields(ctx); f = ctx.method(rec, 'processWithEnvelopes', 2)
    s = ctx.run(f, None, [IN, OUT], this=D[0])
    EH, BH = ('in', has(E)), ('in', has(B))
    pr = [e for e in s.log if e.kind == 'icall' and e.q == 'hart::DSP::process' and e.pc != FALSE]
    if len(pr) != 1 or pr[0].loops: (ctx.bad if not pr and not [e for e in s.log if e.kind == 'call'] else ctx.unk)('applied', f, 'the effect processes the block once'); return
    p = pr[0]
    if not unconditional(ctx, 'applied', p, p.pc, 'the effect processes the block', p.asm): return
    ctx.must('applied', p, p.args[:2] == (('loc', IN), ('loc', OUT)) or list(p.args[:2]) == [('loc', IN), ('loc', OUT)] or None, 'the effect processes the given block')
    ctx.must('applied', p, True if p.args[2] == ('loc', B) else None, 'the effect gets the values of its own envelopes')
    rs = [e for e in s.log if e.kind == 'icall' and e.q == 'hart::Envelope::renderNextBlock' and e.pc != FALSE]
    what = 'every attached envelope is rendered once per block'
    if not rs: (ctx.unk if [e for e in s.log if e.kind == 'call'] else ctx.bad)('applied', f, what + ': never'); return
    if len(rs) > 1: (ctx.bad if len([e for e in rs if len(e.loops) == 1 and e.loops == rs[0].loops and e.this == rs[0].this and e.pc == rs[0].pc]) > 1 else ctx.unk)('applied', rs[1], what + ': several calls'); return
    r = rs[0]; t = entry(r.this)
    if t is None or t[0] != E or len(r.loops) != 1: ctx.unk('applied', r, '%s: renders %s' % (what, showloc(r.this))); return
    L = r.loops[0]; lp = s.loops[L]; key = t[1]; k = ('kap', L)
    keyb, keye = ('uf', 'mkey', BH, k), ('uf', 'mkey', EH, k)
    if key not in (keyb, keye):
        (ctx.bad if pure(key) and compare(key, keyb, None, n=200, seed=ctx.seed)[0] == 'ne' and compare(key, keye, None, n=200, seed=ctx.seed)[0] == 'ne' else ctx.unk)('applied', r, '%s: renders that of parameter %s' % (what, clip(show(key)))); return
    # the two tables have the same keys once prepared, and looking up an entry adds none
    def inv(c):
        m = {('phi', L, has(E)): EH, ('lo', L, has(E)): EH}
        c = subst(c, m)
        return subst(c, {('has', EH, key): TRUE, ('has', BH, key): TRUE, ('sel', EH, ('ix', key)): TRUE, ('sel', BH, ('ix', key)): TRUE})
    if not allkeys(lp, BH if key == keyb else EH):
        (ctx.bad if lp.exitcond != FALSE and possible(ctx, inv(lp.exitcond)) or lp.T is not None and pure(lp.T) and lp.exitcond == FALSE else ctx.unk)('applied', r, '%s: the loop leaves some out' % what); return
    if not unconditional(ctx, 'applied', r, inv(lp.pc), what, [not_(('mempty', BH)), not_(('mempty', EH))]): return
    if not unconditional(ctx, 'applied', r, inv(r.pc), what, [inv(a) for a in r.asm]): return
    ctx.ok('applied', r, what)
    n, dst = r.args[0], r.args[1]
    if dst[0] == 'loc': ctx.must('applied', r, True if dst[1] == B + (('[]', key),) else (False if dst[1][:len(B)] == B and len(dst[1]) == len(B) + 1 and key == keyb and pure(dst[1][-1][1]) else None), 'its values go to its own parameter (%s)' % showloc(dst[1]))
    asm = [a for a in tuple(r.asm) + tuple(lp.asm or ())]
    d = compare(ite(lt(n, FIN), ONE, ZERO), ZERO, Facts([inv(a) for a in asm]), n=300, seed=ctx.seed, special=[(lambda t: True if sem.is_unsigned_leaf(t) else False, lambda r, t: r.choice([0, 1, 2, 3, 4, 8, 64]))])
    w2 = 'at least one value per frame of the block'
    if d == 'eq': ctx.ok('applied', r, w2)
    else: (ctx.bad if d[0] == 'ne' and pure(n) else ctx.unk)('applied', r, '%s: %s values' % (w2, clip(show(n))))
    for e in s.log:
        if e.kind == 'write' and isinstance(e.loc, tuple) and e.loc[:len(B)] == B and len(e.loc) > len(B) + 1 and e.loc[-1] != '#size' and e.pc != FALSE and e.id > r.id:
            c = inv(and_(e.pc, *[s.loops[l].pc for l in e.loops]))
            if c == FALSE: continue
            q = possible(ctx, c, [inv(a) for a in e.asm if pure(inv(a))])
            (ctx.bad if q else ctx.unk)('applied', e, 'values are changed after they have been rendered'); break
    else: ctx.ok('applied', p, 'rendered values reach the effect unchanged')

def hosts(ctx):
    rec, E, B = fields(ctx); f = B[-1]
    ss = [('process()', process(ctx)), ('EqualsTo', c05.equalsto(ctx)), ('a signal\'s chain', ctx.run(ctx.method(ctx.rec('hart::Signal'), 'renderNextBlockWithDSPChain', 1), ctx.rec('hart::Signal'), [P('block')]))]
    ss.append(('EqualsTo', ctx.run(ctx.method(ctx.rec('hart::EqualsTo'), 'match', 1), ctx.rec('hart::EqualsTo'), [P('observed')])))
    n = 0
    for lab, s in ss:
        for e in s.log:
            if e.kind == 'icall' and e.q == 'hart::DSP::process' and e.pc != FALSE:
                n += 1; a = e.args[2]; own = tuple(e.this) + (f,)
                if a == ('loc', own):
                    r = [x for x in s.log if x.kind == 'icall' and x.q == 'hart::Envelope::renderNextBlock' and x.id < e.id and x.loops[:len(e.loops)] == e.loops]
                    ctx.must('hosts', e, True if r else None, '%s: %s runs with its envelopes rendered' % (lab, showloc(e.this)))
                else: ctx.must('hosts', e, False if a[0] == 'loc' and (a[1][0][0] == 'tmp' or a[1][0][0] == 'var') else None, '%s: %s runs with its own automation (%s)' % (lab, showloc(e.this), showloc(a[1]) if a[0] == 'loc' else clip(show(a), 80)))
    if not n: raise Missing('effects being run')

def stock(ctx):
    for rec in ctx.subclasses('hart::DSP'):
        if not (rec.get('file') or '').startswith(ctx.repo): pass
        f = ctx.method(rec, 'process', 3); g = ctx.method(rec, 'supportsEnvelopeFor', 1)
        s = ctx.run(f, rec, [IN, OUT, ENV]); HE, VE = ('in', ENV + ('#has', ('[]',))), ENV + (('[]',),)
        ids = set(); odd = False
        for t in [s.arr(OUT + SKEY)] + [e.pc for e in s.log] + [w.val for w in s.log if w.kind == 'write' and isinstance(w.val, tuple) and w.val and isinstance(w.val[0], str)]:
            for y in [t] + list(subterms(t)):
                if y[0] == 'has' and y[1] == HE: ids.add(y[2])
                if y[0] == 'sel' and y[1][0] == 'in' and y[1][1][:len(VE)] == VE: ids.add(y[2][1])
        if any(i[0] != 'int' for i in ids): ctx.unk('stock effects', f, '%s: which parameters it reads automation for' % rec['q']); continue
        want = {i[1] for i in ids}; r = ctx.run(g, rec, [ID]).ret
        for v in range(-3, 12):
            t = subst(r, {ID: num(v)})
            if t[0] not in ('bool', 'int'): t = Facts().simp(t)
            if t[0] not in ('bool', 'int'): ctx.unk('stock effects', g, '%s: what it answers for parameter %d' % (rec['q'], v)); break
            if bool(t[1]) != (v in want): ctx.bad('stock effects', g, '%s: %s automation of parameter %d, but process() %s it' % (rec['q'], 'supports' if t[1] else 'refuses', v, 'reads' if v in want else 'never reads')); break
        else: ctx.ok('stock effects', g, '%s: supports automation of exactly the parameters it reads (%s)' % (rec['q'], sorted(want)))
