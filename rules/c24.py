"""Each setting's method is summarised with a symbolic argument: the condition under which it throws must equal the stated
refusal condition (compared by cases over its atoms and by evaluation for arithmetic), nothing of the object is written on a
path that throws, and on the other paths exactly one field is written, with exactly the argument; no two settings share a
field. The mono and stereo shorthands are compared with the channel settings they name. Values set with withValue() are passed
to the effect once each, in order, before any audio. Constructors of stock signals, and an envelope's preparation, throw for the arguments stated."""
from .common import *
from .proc import *

XD = ('in', P('x'))

def check(ctx):
    rec = builder(ctx)
    fields = {}
    for name, spec, why in (('withSampleRate', lambda s, X: or_(le(X, ('flt', 0.0)), not_(asked(s, 'supportsSampleRate', X))), 'not positive or not supported by the effect'), ('withBlockSize', lambda s, X: eq(X, ZERO), 'zero'),
                            ('withDuration', lambda s, X: lt(X, ('flt', 0.0)), 'negative'), ('withInputChannels', lambda s, X: or_(eq(X, ZERO), lt(num(128), X)), 'zero or above 128'), ('withOutputChannels', lambda s, X: or_(eq(X, ZERO), lt(num(128), X)), 'zero or above 128'), ('withLabel', lambda s, X: FALSE, 'nothing')):
        ctx.guard('settings', name, setting, ctx, rec, name, spec, why, fields)
    own = {}
    for n, f in fields.items(): own.setdefault(f, []).append(n)
    for f, ns in own.items(): ctx.must('settings', 'AudioTestBuilder', len(ns) == 1, '%s is the field of one setting only (%s)' % (showloc(f), ', '.join(ns)))
    i, o = fields.get('withInputChannels'), fields.get('withOutputChannels')
    if i and o:
        for name, want in (('withStereoInput', {i: 2}), ('withStereoOutput', {o: 2}), ('withMonoInput', {i: 1}), ('withMonoOutput', {o: 1}), ('inMono', {i: 1, o: 1}), ('inStereo', {i: 2, o: 2})):
            ctx.guard('shorthands', name, shorthand, ctx, rec, name, want)
    ctx.guard('values', 'withValue', values, ctx, rec)
    ctx.guard('input signal', 'withInputSignal', insignal, ctx, rec)
    ctx.guard('stock signals', 'stock signals', stock, ctx)

def asked(s, n, X):
    ev = [e for e in s.log if e.kind == 'icall' and e.n == n and e.args and e.args[0] == X]
    return ('ev', ev[0].id, n) if ev else TRUE

def changed(s, this=('this',)):
    n = len(this)
    return {k[n:]: v for k, v in s.st.store.items() if isinstance(k, tuple) and k[:n] == this and v != ('in', k)}

def setting(ctx, rec, name, spec, why, fields):
    f = ctx.method(rec, name, 1)
    txt = name == 'withLabel'
    X = ('in', P('x#size')) if name in ('withBlockSize', 'withInputChannels', 'withOutputChannels') else XD
    s = ctx.run(f, rec, [P('x') if txt else X])
    thr = or_(*[t[0].pc for t in s.throws]) if s.throws else FALSE
    want = spec(s, X)
    if name == 'withSampleRate' and asked(s, 'supportsSampleRate', X) == TRUE: ctx.bad('refused', f, '%s: the effect is not asked whether it supports the sample rate' % name); return
    pure = name == 'withSampleRate'
    if pure: ctx.gsame('refused', f, thr, want, TRUE, '%s refuses what is %s' % (name, why), free=lambda a: a[0] == 'ev')
    elif thr == FALSE or want == FALSE: ctx.must('refused', f, thr == want, '%s refuses what is %s' % (name, why))
    else:
        sp = [(lambda t: t == X, (lambda r, t: r.choice([0, 1, 2, 3, 64, 127, 128, 129, 130, 500])) if name != 'withDuration' else (lambda r, t: r.choice([0.0, -1.0, -1e-9, -1e-300, 1e-9, .1, 1.0, 100.0, 1e6, 0.5, 3.0])))]
        ctx.same('refused', f, thr, want, None, '%s refuses what is %s' % (name, why), wantk='b', special=sp, n=200)
    # validated before anything is stored
    for t in s.throws:
        ws = [w for w in s.log if w.kind in ('write', 'push') and w.id < t[4] and (w.loc if w.kind == 'write' else w.vec)[:1] == ('this',) and not sem.implies(and_(w.pc, t[0].pc), FALSE)]
        if ws: ctx.bad('unchanged', ws[0], '%s: %s is written although the value is then refused' % (name, showloc(ws[0].loc if ws[0].kind == 'write' else ws[0].vec)))
        else: ctx.ok('unchanged', f, '%s: nothing is written when the value is refused (%s)' % (name, t[1]))
    ch = changed(s)
    keys = [k for k in ch]
    if txt: keys = sorted({k for k in keys if k and not str(k[-1]).startswith('#')} or set(keys), key=repr)
    mine = [k for k in keys if s.e.read(('this',) + k, s.st) == (('in', P('x')) if txt else X)]
    A = Facts(list(s.st.asm))
    if not mine:
        vals = [ch[k] for k in keys]
        for k in keys:
            r = compare(A.simp(ch[k]), X, A, n=100, seed=ctx.seed) if not txt else ('?', '')
            if r == 'eq': mine = [k]
    if len(mine) == 1 and len(keys) == 1: ctx.ok('stored', f, '%s stores the value as given, in %s only' % (name, showloc(mine[0]))); fields[name] = mine[0]
    elif not mine: (ctx.bad if all(understood(ch[k]) for k in keys) else ctx.unk)('stored', f, '%s does not store the value as given (%s)' % (name, clip(', '.join('%s=%s' % (showloc(k), show(ch[k])) for k in keys)) or 'stores nothing'))
    else:
        fields[name] = mine[0]; extra = [k for k in keys if k not in mine[:1]]
        proc = process(ctx); usedf = {x[1][1] for e in proc.log for t in [a for a in getattr(e, 'args', []) or [] if isinstance(a, tuple)] + [e.pc] for x in [t] + list(subterms(t)) if x[0] == 'in' and x[1][:1] == OBJ and len(x[1]) > 1}
        # a field that only caches something derived from the settings is not another setting
        (ctx.bad if any(k[0] in sum([list(v) for n, v in fields.items() if n != name], []) for k in extra) else ctx.unk)('stored', f, '%s also changes %s' % (name, ', '.join(showloc(k) for k in extra)))

def understood(t): return all(x[0] in ('in', 'int', 'flt', 'bool', 'add', 'mul', 'prod', 'div', 'min', 'max', 'ite', 'lt', 'le', 'eq', 'not', 'and', 'or', 'trunc', 'f32', 'uf', 'str') for x in [t] + list(subterms(t)))

def shorthand(ctx, rec, name, want):
    f = ctx.method(rec, name, 0); s = ctx.run(f, rec, [])
    ch = changed(s); sides = set(want)
    got = {k: v for k, v in ch.items()}
    if got == {k: num(v) for k, v in want.items()}: ctx.ok('shorthands', f, '%s sets exactly %s' % (name, ', '.join('%s=%s' % (showloc(k), v) for k, v in want.items())))
    else:
        sp = [(lambda t: t[0] == 'in', lambda r, t: r.choice([1, 2, 3, 8, 128]))]
        for k in sorted(set(got) | sides, key=repr):
            ctx.same('shorthands', f, got.get(k, ('in', ('this',) + k)), num(want[k]) if k in want else ('in', ('this',) + k), None, '%s: %s' % (name, showloc(k)), special=sp)

def values(ctx, rec):
    f = ctx.method(rec, 'withValue', 2); s = ctx.run(f, rec, [('in', P('id')), ('in', P('v'))])
    ps = [e for e in s.log if e.kind == 'push' and e.pc != FALSE]
    if len(ps) != 1: ctx.unk('values', f, 'withValue adds to one list'); return
    e = ps[0]; vals = elvals(s, e); V = e.vec[1:]
    idf = [k for k, v in vals.items() if v == ('in', P('id'))]; vf = [k for k, v in vals.items() if v == ('in', P('v'))]
    if len(idf) != 1 or len(vf) != 1: (ctx.bad if len(vals) >= 1 and all(understood(v) for v in vals.values()) else ctx.unk)('values', e, 'withValue keeps id and value as given: %s' % {k: show(v) for k, v in vals.items()}); return
    ctx.must('values', e, e.pc == TRUE and e.vec[:1] == ('this',) and e.at is not None, 'withValue adds id and value unconditionally')
    p = process(ctx); A = accum(ctx); vec = OBJ + V
    sv = [x for x in p.log if x.kind == 'icall' and x.n == 'setValue' and x.pc != FALSE]
    if not sv: ctx.bad('values', A.proc[0], 'process() never sets the values'); return
    for x in sv:
        if len(x.loops) != 1: ctx.unk('values', x, 'values are set in one loop'); continue
        L = x.loops[0]; lp = p.loops[L]; ix = ('ix', ('kap', L))
        if lp.T != ('in', vec + ('#size',)) or lp.exitcond != FALSE:
            (ctx.bad if lp.T is not None and isnum(sub(lp.T, ('in', vec + ('#size',)))) else ctx.unk)('values', x, 'every value is set, once: %s times' % (show(lp.T) if lp.T else '?')); continue
        if x.pc != TRUE: ctx.bad('values', x, 'every value is set: only when %s' % clip(show(x.pc))); continue
        w = [('sel', ('in', vec + (('[]',), idf[0])), ix), ('sel', ('in', vec + (('[]',), vf[0])), ix)]
        ok = list(x.args) == w
        ctx.must('values', x, ok if ok or all(understood(a) or a[0] == 'sel' for a in x.args) else None, 'the effect gets every id with its value, in the order given')
        ctx.must('values', x, x.this == A.proc[0].this, 'values are set on the tested effect')
        ctx.must('values', x, x.id < A.proc[0].id, 'values are set before any audio')
        pr = [y for y in p.log if y.kind == 'icall' and y.q in ('hart::DSP::reset',) and y.this == x.this]
        if any(y.id > x.id for y in pr): ctx.unk('values', x, 'nothing resets the effect after its values have been set')
        else: ctx.ok('values', x, 'nothing resets the effect after its values have been set')

def insignal(ctx, rec):
    f = ctx.method(rec, 'withInputSignal', 1); s = ctx.run(f, rec, [P('sig')])
    A = accum(ctx); fld = A.rend[0].this[0][1][1][1:]
    v = s.e.read(('this',) + fld, s.st)
    cs = [e for e in s.log if e.kind == 'icall' and e.n == 'copy' and e.this == P('sig')]
    ctx.must('input signal', f, True if cs and v == ('ev', cs[0].id, 'copy') else (False if v == ('in', ('this',) + fld) else None), 'withInputSignal keeps a copy of the given signal')

def stock(ctx):
    def ctor(q, params, spec, why, sp):
        rec = ctx.rec(q); c = ctx.valctor(rec); s = ctx.run(c, rec, params + [('in', P('o%d' % i)) for i in range(len(params), len(c['params']))])
        thr = or_(*[t[0].pc for t in s.throws]) if s.throws else FALSE
        if thr == FALSE: ctx.bad('refused', c, '%s refuses %s: never' % (q, why)); return
        ctx.same('refused', c, thr, spec, None, '%s refuses %s' % (q, why), wantk='b', special=sp, n=200)
    fr = lambda r, t: r.choice([-1.0, 0.0, -1e-9, 1e-9, 1.0, 440.0, 20000.0, 1e5])
    H, D, A_, B_ = ('in', P('hz')), ('in', P('d')), ('in', P('a')), ('in', P('b'))
    ctx.guard('refused', 'SineWave', ctor, 'hart::SineWave', [H], le(H, ('flt', 0.0)), 'a frequency that is not positive', [(lambda t: t == H, fr)])
    ctx.guard('refused', 'SineSweep', ctor, 'hart::SineSweep', [D, A_, B_], or_(lt(D, ('flt', 0.0)), le(A_, ('flt', 0.0)), le(B_, ('flt', 0.0))), 'negative durations and frequencies that are not positive', [(lambda t: t in (A_, B_, D), fr)])
    def env():
        rec = ctx.rec('hart::SegmentedEnvelope'); m = ctx.method(rec, 'prepare', 2); s = ctx.run(m, rec, [XD, ('in', P('max'))])
        thr = or_(*[t[0].pc for t in s.throws]) if s.throws else FALSE
        ctx.same('refused', m, thr, le(XD, ('flt', 0.0)), None, 'envelopes refuse sample rates that are not positive', wantk='b', special=[(lambda t: t == XD, lambda r, t: r.choice([0.0, -1.0, -44100.0, 1.0, 44100.0]))], n=100)
        for t in s.throws:
            ws = [w for w in s.log if w.kind == 'write' and w.id < t[4] and w.loc[:1] == ('this',)]
            ctx.must('unchanged', m, not ws, 'an envelope that refuses its sample rate is left as it was')
    ctx.guard('refused', 'SegmentedEnvelope', env)
