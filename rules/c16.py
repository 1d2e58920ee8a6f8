"""The final contents of a block, in the summary of each stock signal's render function, are taken apart into families of writes
(loops, index, value, condition). The union of the families' index ranges - their loops' lengths and conditions, with block
length, channel count and the point where a loop is left as unknowns - is compared with the whole block. Values of tones, sweeps
and silence do not vary with the channel counter; a wav signal's value is the sample of the same channel at the file
position, which goes up by one per frame; where a sweep or file has ended (conditions of the loops and exits) only zeros are
written, and the state left behind keeps it so."""
from .render import *

def check(ctx):
    for q in SIGNALS: ctx.guard('every sample', q, one, ctx, q)

def one(ctx, q):
    rec, f, s, a = rendered(ctx, q); fams = split(families(s, a, SBLK)); n = q.split('::')[1]
    prep, ps = prepared(ctx, rec); ok = ctx.run(ctx.method(rec, 'supportsNumChannels', 1), rec, [NCH]).ret
    facts = [ok] if ok is not None else []
    for k, v in prep.items():
        if k not in [('in', x) for x in writtenfields(s)] and (v == NCH): fams = [Fam(x.loops, subst(x.idx, {k: v}), subst(x.val, {k: v}), subst(x.guard, {k: v}), tuple(subst(t, {k: v}) for t in x.Ts)) for x in fams]
    covered(ctx, 'every sample', f, s, fams, facts, '%s writes every frame of every channel' % n)
    if q in ('hart::SineWave', 'hart::SineSweep', 'hart::Silence'): ctx.guard('channels', q, alike, ctx, n, f, s, fams)
    if q == 'hart::WavFile': ctx.guard('file order', q, wav, ctx, n, rec, f, s, fams, facts)
    if q == 'hart::SineSweep': ctx.guard('silence after the end', q, sweep, ctx, n, rec, f, s, fams, prep)
    if q == 'hart::Silence': 
        for x in fams: ctx.must('silence', f, True if iszero(x.val) else False if isnum(x.val) or pure(x.val) else None, '%s writes zeros' % n)

def iszero(t): return isnum(t) and t[1] == 0

def alike(ctx, n, f, s, fams):
    """the value written does not depend on the channel"""
    for x in fams:
        c, m = at(x, ('ix', CC, FF)); v = subst(x.val, m)
        own = {k[1] for k, e in m.items() if mentions(e, lambda y: y == CC)}
        ph = {y[1] for y in [v] + list(subterms(v)) if y[0] in ('phi', 'lo')}
        bad = [L for L in ph if L in own or L not in x.loops and any(s.loops[L].parent == o for o in own)]
        if mentions(v, lambda y: y == CC):
            # really different?
            N = Names(s); v1 = N(v); C2 = ('in', P('c2#size'))
            r = compare(v1, subst(v1, {CC: C2}), None, n=400, seed=ctx.seed)
            if r == 'eq': ctx.ok('channels', f, '%s writes the same value to all channels' % n)
            else: (ctx.bad if r[0] == 'ne' else ctx.unk)('channels', f, '%s: the value depends on the channel: %s' % (n, clip(show(v), 200)))
            continue
        real = [L for L in bad for k, (i, nx) in s.loops[L].phis.items() if ('phi', L, k) in [v] + list(subterms(v)) and nx != ('phi', L, k)]
        if real: ctx.bad('channels', f, '%s: the value changes from channel to channel: %s' % (n, clip(show(v), 200)))
        else: ctx.ok('channels', f, '%s writes the same value to all channels (%s)' % (n, clip(show(v), 60)))

def wav(ctx, n, rec, f, s, fams, facts):
    loopfld, yes = loopsetting(ctx, rec, 'hart::WavFile::Loop')
    fams = bycase(fams); audio = [x for x in fams if not iszero(x.val)]; zeros = [x for x in fams if iszero(x.val)]
    if not audio: ctx.bad('file order', f, '%s never plays the file' % n); return
    for x in audio:
        c, m = at(x, ('ix', CC, FF)); v = x.val
        while v[0] == 'f32': v = v[1]
        if isnum(v) or v[0] == 'sel' and (v[1] == SBLK or any(y == SBLK or y[0] in ('phi', 'lo') and y[2] == BLK + SKEY for y in [v[1]] + list(subterms(v[1])))): ctx.bad('file order', f, '%s: writes %s, neither the file nor silence' % (n, clip(show(v), 120))); continue
        if v[0] != 'sel' or len(v[2]) != 3: ctx.unk('file order', f, '%s: value %s' % (n, clip(show(v), 150))); continue
        ch = subst(v[2][1], m); off = v[2][2]
        if not pure(ch): ctx.unk('file order', f, '%s: channel %s' % (n, show(ch))); continue
        N = Names(s)
        r = compare(ch, CC, None, n=800, seed=ctx.seed, special=[(lambda t: t[0] == 'in' and sem.is_unsigned_leaf(t), lambda r, t: r.choice(SMALL))], guard=and_(N(c), lt(CC, NCH), *facts))
        ctx.must('file order', f, True if r == 'eq' else False if r[0] == 'ne' else None, '%s: output channel c gets the file\'s channel c (%s)' % (n, show(ch)))
        W = ('in', v[1][1][:-3] + ('#nfr',)) if v[1][0] == 'in' and v[1][1][-3:] == SKEY else None
        if off[0] == 'phi' and off[1] in x.loops:
            L, key = off[1], off[2]; lp = s.loops[L]; i, nx = lp.phis[key]
            for yesno in (False, True):
                z = {loopfld: num(yes if yesno else 1 - yes)} if loopfld else {}
                nn = subst(nx, z)
                if yesno: want = ('mod', add(off, ONE), W) if W else None
                else: want = add(off, ONE)
                if want is None: ctx.unk('file order', f, '%s: length of the file' % n); continue
                OFF = ('in', P('off#size'))
                r = compare(subst(nn, {off: OFF}), subst(want, {off: OFF}), None, n=800, seed=ctx.seed, special=[(lambda t: t[0] == 'in', lambda r, t: r.choice(SMALL + [100, 44100]))], guard=and_(lt(OFF, W), lt(ZERO, W)) if W else TRUE)
                ctx.must('file order', f, True if r == 'eq' else False if r[0] == 'ne' else None, '%s: the position goes up by one per frame%s (%s)' % (n, ', starting over at the end of the file' if yesno else '', clip(show(nn), 100)))
            fk = ('this',) + key[1:] if key[:1] == ('this',) else None
            z0 = {loopfld: num(1 - yes)} if loopfld else {}
            ctx.must('file order', f, True if i == ('in', key) and key[:1] == ('this',) else False if isnum(i) or pure(i) and key[:1] == ('this',) and compare(subst(i, z0), ('in', key), None, n=800, special=[(lambda t: t[0] == 'in', lambda r, t: r.choice(SMALL))])[0] == 'ne' else None, '%s: a block goes on where the last one ended (%s)' % (n, clip(show(i), 100)))
            ctx.must('file order', f, True if s.read(key) == ('lo', L, key) else False if s.read(key) == ('in', key) or isnum(s.read(key)) else None, '%s: the position reached is kept' % n)
            # audio ends where the file ends
            if W:
                OFF = ('in', P('off#size')); K = ('in', P('k#size'))
                cnd = subst(subst(lp.cond, {off: OFF}), {('kap', L): K})
                if lp.T is not None: ctx.unk('silence after the end', f, '%s: condition of the loop' % n)
                else:
                    z = {loopfld: num(1 - yes)} if loopfld else {}
                    r = compare(subst(cnd, z), lt(OFF, W), None, n=800, seed=ctx.seed, want='b', special=[(lambda t: t[0] == 'in', lambda r, t: r.choice(SMALL + [100]))], guard=lt(K, NFR))
                    ctx.must('silence after the end', f, True if r == 'eq' else False if r[0] == 'ne' else None, '%s: file frames are played exactly while the position is inside the file (%s)' % (n, clip(show(lp.cond), 150)))
        else: ctx.unk('file order', f, '%s: position in the file: %s' % (n, clip(show(off), 120)))
    ctx.must('silence after the end', f, True if zeros or not facts else None, '%s: what is left of the block is silent' % n)

def bycase(fams):
    out = []
    for f in fams:
        v = f.val
        while v[0] == 'f32': v = v[1]
        if v[0] == 'ite': out += bycase([Fam(f.loops, f.idx, v[2], and_(f.guard, v[1]), f.Ts), Fam(f.loops, f.idx, v[3], and_(f.guard, not_(v[1])), f.Ts)])
        else: out.append(f)
    return out

def loopsetting(ctx, rec, enum):
    """(field that holds the loop setting, value for yes)"""
    yes = enumval(ctx, enum + '::yes')
    for c in ctx.ctors(rec):
        if ctx.iscopy(rec, c): continue
        s = ctx.run(c, rec, [P('p%d' % i) if ctx.prog.ty(p['t'])['k'] in ('ref', 'rref') else ('in', P('p%d' % i)) for i, p in enumerate(c['params'])])
        for i, p in enumerate(c['params']):
            if 'Loop' in ctx.prog.ty(p['t'])['s']:
                for k, v in s.st.store.items():
                    if k[:1] == ('this',) and v == ('in', P('p%d' % i)): return ('in', k), yes
    raise Missing('loop setting')

def sweep(ctx, n, rec, f, s, fams, prep):
    rule = 'silence after the end'
    loopfld, yes = loopsetting(ctx, rec, 'hart::SineSweep::Loop'); z = {loopfld: num(1 - yes)}
    durfld = None
    for c in ctx.ctors(rec):
        if not ctx.iscopy(rec, c) and c['params']:
            cs = ctx.run(c, rec, [('in', P('p%d' % i)) for i in range(len(c['params']))])
            for k, v in cs.st.store.items():
                if k[:1] == ('this',) and v == ('in', P('p0')): durfld = ('in', k)
    if durfld is None: ctx.unk(rule, f, '%s: duration' % n); return
    want = ('trunc', ('uf', 'floor', add(mul(durfld, ('in', P('rate'))), ('flt', .5))))
    D = None
    sp = [(lambda t: t == durfld, lambda r, t: r.choice([0.0, 1.0, 0.5, 2.0, 1e-6, 1e-5, 1.23456, 0.1, 30.0])), (lambda t: t == ('in', P('rate')), lambda r, t: r.choice([44100.0, 48000.0, 8000.0, 100.0]))]
    for k, v in prep.items():
        if mentions(v, lambda y: y == durfld) and pure(v):
            r = compare(v, want, None, n=400, seed=ctx.seed, special=sp)
            ctx.must(rule, f, True if r == 'eq' else False if r[0] == 'ne' else None, '%s: lasts duration times sample rate frames, rounded (%s)' % (n, show(v))); D = k
    if D is None: ctx.unk(rule, f, '%s: length in frames' % n); return
    out = subst(s.arr(BLK + SKEY), z)
    # the condition under which nothing but zeros is written
    nz = [x for x in fams if not iszero(x.val)]
    main = [(L, lp) for L, lp in s.loops.items() if any(x.loops[:1] == (L,) for x in nz) and lp.exitcond != FALSE]
    if len({L for L, lp in main}) != 1: ctx.unk(rule, f, '%s: form of the render loop' % n); return
    L, lp = main[0]; ex = subst(lp.exitcond, z)
    alone = subst(ex, {('exists',): ('exists',)})
    # frames are counted by a value that goes up by one per frame
    ps = [(k, i, subst(nx, z)) for k, (i, nx) in lp.phis.items() if ('phi', L, k) in list(subterms(ex)) + [ex]]
    if len(ps) != 1: ctx.unk(rule, f, '%s: what ends the sweep: %s' % (n, clip(show(ex), 120))); return
    k, i, nx = ps[0]; ph = ('phi', L, k); PO = ('in', P('pos#size'))
    szs = [(lambda t: t in (PO, D), lambda r, t: r.choice(SMALL + [100, 1000]))]
    r = compare(subst(ex, {ph: PO}), eq(add(PO, ONE), D), None, n=800, seed=ctx.seed, want='b', special=szs, guard=lt(PO, D))
    ctx.must(rule, f, True if r == 'eq' else False if r[0] == 'ne' else None, '%s without loop: ends with the last frame of its length (%s)' % (n, clip(show(ex), 120)))
    r = compare(subst(nx, {ph: PO}), add(PO, ONE), None, n=800, seed=ctx.seed, special=szs, guard=not_(subst(ex, {ph: PO})))
    ctx.must(rule, f, True if r == 'eq' else False if r[0] == 'ne' else None, '%s: every frame counts once (%s)' % (n, clip(show(subst(nx, z)), 120)))
    ctx.must(rule, f, True if i == ('in', k) and k[:1] == ('this',) else False if isnum(i) else None, '%s: the count goes on from the last block' % n)
    # what has ended stays silent
    E = [t for t in subterms(out) if t[0] == 'exists' and t[1] == L]
    Z = or_(*[subst(x.guard, z) for x in fams if iszero(x.val) and not mentions(x.guard, lambda y: y[0] in ('exists', 'kx'))])
    live = or_(*[subst(x.guard, z) for x in nz])
    if not E: ctx.unk(rule, f, '%s: exit of the render loop' % n); return
    st = {('in', kk): subst(v, z) for kk, v in writtenfields(s).items()}
    silent = [t for t in conds(live) if pure(t)]
    # live requires the negations of the silent conditions: substitute the state after the exit
    after = {x: subst(v, {E[0]: TRUE}) for x, v in st.items()}
    lv = subst(live, {E[0]: FALSE})
    N = Names(s)
    going = and_(N(lv), lt(ZERO, NFR))
    nxt = N(subst(lv, {x: v for x, v in after.items()}))
    r = compare(and_(going, nxt), FALSE, None, n=1500, seed=ctx.seed, want='b')
    ctx.must(rule, f, True if r == 'eq' else False if r[0] == 'ne' else None, '%s: once it has ended, later blocks are silent' % n)
    ended = {x: subst(v, {}) for x, v in st.items()}
    off = not_(lv); N2 = Names(s)
    r = compare(and_(N2(off), N2(subst(lv, ended))), FALSE, None, n=1500, seed=ctx.seed, want='b')
    ctx.must(rule, f, True if r == 'eq' else False if r[0] == 'ne' else None, '%s: a silent sweep stays silent' % n)
    # beyond the last frame of the block in which it ends
    for x in nz:
        c, m = at(x, ('ix', CC, FF)); c = subst(c, z)
        N3 = Names(s); cc = N3(subst(c, {E[0]: TRUE})); kx = N3(('kx', L))
        r = compare(and_(cc, lt(kx, FF)), FALSE, None, n=1500, seed=ctx.seed, want='b', special=[(lambda t: t[0] == 'in' and (sem.is_unsigned_leaf(t) or t[1][-1] in ('#nch', '#nfr')), lambda r, t: r.choice(SMALL))])
        if r != 'eq': ctx.must(rule, f, False if r[0] == 'ne' else None, '%s: frames after its end in the block in which it ends are silent' % n); break
    else: ctx.ok(rule, f, '%s: frames after its end in the block in which it ends are silent' % n)

def conds(t): return [t] + [x for x in subterms(t) if x[0] in ('not', 'eq', 'lt', 'in')]
