"""Guarded value numbering of each gain effect's constructor, setValue(), process(): the term of every
output sample, at a symbolic channel and frame, must equal input sample times gain, where the gain is the
attached automation's value for that frame (through the decibel conversion for GainDb) or the value last
set; the same with input and output bound to one buffer; layouts accepted are n-to-n and 1-to-n. Claimed
for all channel counts, frame counts, gains and envelope values; arithmetic is compared as real-valued terms."""
from .common import *

MAXB = ('in', P('maxBlock'))

def check(ctx):
    conversion(ctx)
    for q, conv, pname in (('hart::GainLinear', lambda x: x, 'gainLinear'), ('hart::GainDb', lambda x: dbconv(ctx, x), 'gainDb')):
        rec = ctx.rec(q); gid = num(enumval(ctx, '%s::%s' % (q, pname)))
        def one(rec=rec, conv=conv, gid=gid, q=q):
            ctor = ctx.valctor(rec); proc = ctx.method(rec, 'process', 3); setv = ctx.method(rec, 'setValue', 2)
            V0, V1 = ('in', P('v0')), ('in', P('v1'))
            other = add(gid, ONE)
            for label, pre, gain in (('constructor gain', [(ctor, [V0])], conv(V0)), ('setValue gain', [(ctor, [V0]), (setv, [gid, V1])], conv(V1)),
                                     ('setValue of another parameter', [(ctor, [V0]), (setv, [other, V1])], conv(V0)),
                                     ('last of two setValue gains', [(ctor, [V0]), (setv, [gid, V0]), (setv, [gid, V1])], conv(V1))):
                for inplace in (False, True):
                    out = IN if inplace else OUT
                    prep = (ctx.method(rec, 'prepare', 4), [('in', P('rate')), NIN, NIN if inplace else NOUT, MAXB])
                    for mode in ('fixed', 'automated'):
                        att = [(ctx.attach(rec), [gid, P('env')])] if mode == 'automated' else []
                        s = ctx.seq(rec, pre + att + [prep, (proc, [IN, out, ENV])])
                        facts(ctx, rec, s, gid, label + (', in place' if inplace else ''), proc, out, gain, conv, inplace, mode)
            lay = ctx.method(rec, 'supportsChannelLayout', 2)
            s = ctx.run(lay, rec, [NIN, NOUT])
            grid(ctx, 'layouts', lay, s.ret, [NIN, NOUT], lambda a, b: a == b or a == 1, (1, 2, 3, 4, 7, 128), 'accepts n-to-n and 1-to-n layouts only')
            # a refused layout must not be processed: writes happen only under the accepted layouts
        ctx.guard('gain', q, one)

def facts(ctx, rec, s, gid, label, proc, out, gain, conv, inplace, mode):
    nin, nout = NIN, (NIN if inplace else NOUT); fin = FIN
    has = ('has', ('in', ENV + ('#has', ('[]',))), gid)
    A = s.arr(out + SKEY)
    x = ('sel', SIN, ('ix', C_, F_)) if inplace else sel(SIN, ('ix', ite(eq(nin, nout), C_, ZERO), F_))
    envv = ('sel', ('in', ENV + (('[]',), ('[]',))), ('ix', gid, F_))
    esize = ('sel', ('in', ENV + (('[]',), '#size')), ('ix', gid))
    base = list(s.st.asm) + [lt(C_, nout), lt(F_, fin), lt(ZERO, nin), or_(eq(nin, nout), eq(nin, ONE))]
    if not inplace: base += [eq(FIN, FOUT)]
    if True:
        fs = base + [le(fin, MAXB)] + ([not_(has), ] if mode == 'fixed' else [has, le(fin, esize), le(esize, MAXB)])
        for lay in ((eq(nin, nout), not_(eq(nin, nout))) if not inplace else (TRUE,)):
            fx = fs + ([lay] if lay != TRUE else [])
            F = Facts(fx, [C_, F_])
            got = sel(A, ('ix', C_, F_))
            x2 = x
            if lay != TRUE: x2 = ('sel', SIN, ('ix', C_ if lay == eq(nin, nout) else ZERO, F_))
            want = mul(x2, gain if mode == 'fixed' else conv(envv))
            special = [(lambda t: t in (C_, F_), lambda r, t: r.choice([0, 1, 2])), (lambda t: t in (FIN, FOUT), lambda r, t: 3), (lambda t: t == esize, lambda r, t: 4), (lambda t: t == MAXB, lambda r, t: 5),
                       (lambda t: t in (NIN, NOUT), lambda r, t: 1 if lay not in (TRUE, eq(nin, nout)) and t == nin else 3)]
            ctx.same('sample value', proc, got, want, F, '%s: %s, %s gain%s' % (rec['q'], label, mode, '' if lay == TRUE else ', n-to-n' if lay == eq(nin, nout) else ', 1-to-n'), special=special)

def conversion(ctx):
    def f():
        x = ('in', P('x'))
        fn = ctx.func('hart::decibelsToRatio', lambda f: ctx.prog.strip(f['params'][0]['t'])['s'] == 'double')
        ctx.same('decibel conversion', fn, dbconv(ctx, x), ('uf', 'pow', ('int', 10), fdiv(x, ('int', 20))), Facts([le(('int', -119), x)]), 'ratio is 10^(dB/20)')
    ctx.guard('decibel conversion', 'decibelsToRatio', f)
