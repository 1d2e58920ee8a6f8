"""Shared pieces of the rules."""
from engine.ctx import *
from engine.term import *
from engine import term as T
from engine import sem
from engine.sem import Facts, compare
from engine.eval import State

IN, OUT, ENV = P('input'), P('output'), P('envs')
NIN, NOUT = ('in', IN + ('#nch',)), ('in', OUT + ('#nch',))
FIN, FOUT = ('in', IN + ('#nfr',)), ('in', OUT + ('#nfr',))
SIN, SOUT = ('in', IN + ('#s', ('[]',), ('[]',))), ('in', OUT + ('#s', ('[]',), ('[]',)))
SKEY = ('#s', ('[]',), ('[]',))
C_, F_ = ('in', P('c')), ('in', P('f'))

def enumval(ctx, name):
    """value of an enumerator by qualified name"""
    for q, e in ctx.prog.enums.items():
        for c in e['consts']:
            if q.rsplit('::', 1)[0] + '::' + c['n'] == name or q + '::' + c['n'] == name: return c['v']
    raise Missing('enumerator ' + name)

def dbconv(ctx, x, name='decibelsToRatio'):
    """the library's own conversion, applied to term x"""
    f = ctx.func('hart::' + name, lambda f: ctx.prog.strip(f['params'][0]['t'])['s'] == 'double')
    s = ctx.run(f, None, [('in', P('x'))])
    return subst(s.ret, {('in', P('x')): x})

def grid(ctx, rule, where, term, leaves, spec, values, what):
    """a term over small non-negative integers equals spec on every combination of `values`"""
    import itertools
    for vs in itertools.product(values, repeat=len(leaves)):
        m = {l: num(v) for l, v in zip(leaves, vs)}
        t = subst(term, m)
        if t[0] not in ('bool', 'int', 'flt'):
            t2 = Facts().simp(t)
            if t2[0] not in ('bool', 'int', 'flt'): ctx.unk(rule, where, '%s: %s' % (what, clip(show(t2)))); return None
            t = t2
        if bool(t[1]) != bool(spec(*vs)):
            ctx.bad(rule, where, '%s: is %s for %s' % (what, bool(t[1]), vs)); return False
    ctx.ok(rule, where, '%s (evaluated on %s^%d)' % (what, list(values), len(leaves)))
    return True

def cover(a, ix):
    """condition under which the array term defines element ix without falling back on its initial contents"""
    if a[0] == 'in': return FALSE
    if a[0] == 'constarr': return TRUE
    if a[0] == 'store': return or_(T.eqix(a[2], ix), cover(a[1], ix))
    if a[0] == 'ite': return ite(a[1], cover(a[2], ix), cover(a[3], ix))
    if a[0] == 'evout': return TRUE
    if a[0] == 'upd':
        r = T.sel(('upd', ('constarr', ('int', 0)),) + a[2:4] + (('int', 1),) + a[5:], ix)
        if r[0] == 'sel': return None
        c2 = cover(a[1], ix)
        if c2 is None: return None
        if isnum(r): c1 = num(r[1] == 1)
        else: c1 = eq(r, ONE) if r[0] != 'ite' else (r[1] if r[2] == ONE else not_(r[1]))
        return or_(c1, c2)
    return None

# ---------------------------------------------------------------- calls on the elements of a list
def elemof(this):
    """(list, index) when the object is what an element of a list of owning pointers points to"""
    if this and isinstance(this[0], tuple) and len(this) == 1 and this[0][0] == 'deref' and this[0][1][0] == 'sel' and this[0][1][1][0] == 'in' and this[0][1][1][1][-1] == ('[]',) and this[0][1][2][0] == 'ix' and len(this[0][1][2]) == 2:
        return this[0][1][1][1][:-1], this[0][1][2][1]
    return None

PURE = ('in', 'ev', 'kap', 'sel', 'has', 'empty', 'in*', 'deref', 'ix', 'str', 'undef', 'evout')
def pure(t):
    """does the term depend on nothing but inputs, answers of boundary calls and loop counters"""
    return all(y[0] not in ('phi', 'lo', 'kx', 'kn', 'exists', 'forall', 'red', 'upd', 'lite', 'selp', 'storep', 'append', 'resized', 'evout', 'undef') for y in [t] + list(subterms(t)) if y and isinstance(y[0], str))

def possible(ctx, cond, asm=(), special=None, n=400):
    """True: some inputs and answers make cond true; False: none do; None: not understood"""
    if cond == FALSE: return False
    if not pure(cond): return None
    fs = [a for a in asm if pure(a)]
    if cond == TRUE and not fs: return True
    r = compare(and_(cond, *fs), FALSE, None, n=n, seed=ctx.seed, want='b', special=(special or []) + [(lambda t: sem.is_unsigned_leaf(t), lambda r, t: r.choice([0, 1, 2, 3, 8, 100, 1024, 5000])), (lambda t: t[0] == 'in', lambda r, t: r.choice([0, 1, -1, 2, 44100, 0.5, 100]))])
    if r == 'eq': return None
    return True if r[0] == 'ne' else None

def unconditional(ctx, rule, e, cond, what, asm=()):
    """cond (a path condition) holds always"""
    if cond == TRUE or sem.implies(and_(*[a for a in asm]) if asm else TRUE, cond): return True
    p = possible(ctx, not_(cond), asm)
    (ctx.bad if p else ctx.unk)(rule, e, '%s: only when %s' % (what, clip(show(cond))))
    return False

def eachonce(ctx, rule, where, s, q, vec, what, ordered=True):
    """exactly one call of q on every element of vec, unconditionally (and in ascending order); returns the call"""
    evs = [e for e in s.log if e.kind == 'icall' and e.q == q and e.pc != FALSE and elemof(e.this) and elemof(e.this)[0] == vec]
    if not evs:
        oth = [e for e in s.log if e.kind == 'icall' and e.q == q and e.pc != FALSE] or [e for e in s.log if e.kind == 'call' and e.pc != FALSE]
        (ctx.unk if oth else ctx.bad)(rule, where, '%s: never' % what); return None
    if len(evs) > 1:
        h = hits(s, evs, vec)
        if h is not None and all(h): ctx.ok(rule, evs[0], what + ' (several calls; lists of up to %d)' % (len(h) - 1)); return evs[0]
        if h is not None: ctx.bad(rule, evs[1], '%s: not for a list of %d' % (what, h.index(False))); return None
        both = [e for e in evs if e.pc == TRUE and len(e.loops) == 1 and s.loops[e.loops[0]].pc == TRUE and s.loops[e.loops[0]].exitcond == FALSE and elemof(e.this)[1] == ('kap', e.loops[0]) and s.loops[e.loops[0]].T == ('in', vec + ('#size',))]
        (ctx.bad if len(both) > 1 else ctx.unk)(rule, evs[1], '%s: more than one call per element' % what); return None
    e = evs[0]; ix = elemof(e.this)[1]; size = ('in', vec + ('#size',))
    if not e.loops:
        (ctx.bad if pure(ix) else ctx.unk)(rule, e, '%s: only element %s' % (what, show(ix))); return None
    if len(e.loops) != 1: ctx.unk(rule, e, '%s: inside nested loops' % what); return None
    L = e.loops[0]; lp = s.loops[L]; k = ('kap', L)
    if lp.T is None: ctx.unk(rule, e, '%s: number of iterations not understood' % what); return None
    if lp.T != size or ix != k:
        sp = [(lambda t: t == size, lambda r, t: r.choice([0, 1, 2, 3, 9, 40])), (lambda t: t == k, lambda r, t: r.choice([0, 0, 1, 2, 8]))]
        r = compare(lp.T, size, None, n=300, seed=ctx.seed, special=sp)
        if r != 'eq': (ctx.bad if r[0] == 'ne' and pure(lp.T) else ctx.unk)(rule, e, '%s: %s of %s elements' % (what, show(lp.T), show(size))); return None
        r = compare(ix, k, None, n=300, seed=ctx.seed, special=sp, guard=lt(k, size))
        if r != 'eq' and not ordered: r = compare(ix, sub(sub(size, ONE), k), None, n=300, seed=ctx.seed, special=sp, guard=lt(k, size))
        if r != 'eq': (ctx.bad if r[0] == 'ne' and pure(ix) else ctx.unk)(rule, e, '%s: iteration k deals with element %s' % (what, show(ix))); return None
    if lp.exitcond != FALSE:
        p = possible(ctx, lp.exitcond, lp.asm or ())
        (ctx.bad if p else ctx.unk)(rule, e, '%s: the loop is left early when %s' % (what, clip(show(lp.exitcond)))); return None
    if not unconditional(ctx, rule, e, lp.pc, what, (lt(ZERO, size),)): return None
    if not unconditional(ctx, rule, e, e.pc, what, tuple(e.asm) + (lt(ZERO, size), lt(k, size))): return None
    ctx.ok(rule, e, what)
    return e

def hits(s, evs, vec, upto=6):
    """[is every element of a list of n called exactly once?] for n = 0.., from the calls' conditions, loop lengths and indices; None when these
    depend on anything but the length"""
    from collections import Counter
    size = ('in', vec + ('#size',)); out = []; F = Facts()
    def val(t, m):
        t = subst(t, m)
        if t[0] not in ('int', 'bool'): t = F.simp(t)
        return t[1] if t[0] in ('int', 'bool') else None
    for n in range(upto + 1):
        c = Counter(); m0 = {size: num(n), ('empty', ('in', vec)): num(n == 0)}
        for e in evs:
            envs = [m0]
            for L in e.loops:
                lp = s.loops[L]; nxt = []
                if lp.T is None or lp.exitcond != FALSE: return None
                for m in envs:
                    p = val(lp.pc, m)
                    if p is None: return None
                    if not p: continue
                    t = val(lp.T, m)
                    if t is None or t > 50: return None
                    nxt += [dict(m, **{('kap', L): num(k)}) if False else {**m, ('kap', L): num(k)} for k in range(int(t))]
                envs = nxt
            for m in envs:
                p = val(e.pc, m); i = val(elemof(e.this)[1], m)
                if p is None: return None
                if p:
                    if i is None: return None
                    c[i] += 1
        out.append(c == Counter({i: 1 for i in range(n)}))
    return out

def once(ctx, rule, where, s, q, this, what):
    """exactly one unconditional call of q on the object"""
    evs = [e for e in s.log if e.kind == 'icall' and e.q == q and e.pc != FALSE and e.this == this]
    if not evs:
        oth = [e for e in s.log if e.kind == 'icall' and e.q == q and e.pc != FALSE] or [e for e in s.log if e.kind == 'call' and e.pc != FALSE]
        (ctx.unk if oth else ctx.bad)(rule, where, '%s: never' % what); return None
    if len(evs) > 1:
        if len([e for e in evs if e.pc == TRUE and not e.loops]) > 1: ctx.bad(rule, evs[1], '%s: more than once' % what)
        else: ctx.unk(rule, evs[1], '%s: several calls' % what)
        return None
    e = evs[0]
    if e.loops:
        lp = s.loops[e.loops[0]]
        (ctx.bad if lp.T is not None and pure(lp.T) and lp.T != ONE else ctx.unk)(rule, e, '%s: in a loop' % what); return None
    if not unconditional(ctx, rule, e, e.pc, what, e.asm): return None
    ctx.ok(rule, e, what); return e
