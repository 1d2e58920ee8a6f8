"""Guarded value numbering of HardClip's constructor, setValue() and process(): the term of every output
sample, at a symbolic channel and frame, must equal the input sample limited to plus or minus the
threshold, the threshold going through the library's decibel conversion in either way of setting it; the
same with input and output bound to one buffer; only n-to-n layouts are accepted."""
from .common import *
from .c14 import conversion, MAXB

def check(ctx):
    conversion(ctx)
    def one():
        rec = ctx.rec('hart::HardClip'); tid = num(enumval(ctx, 'hart::HardClip::thresholdDb'))
        ctor = ctx.valctor(rec); proc = ctx.method(rec, 'process', 3); setv = ctx.method(rec, 'setValue', 2); prep = ctx.method(rec, 'prepare', 4)
        V0, V1 = ('in', P('v0')), ('in', P('v1'))
        for label, pre, thr in (('threshold from the constructor', [(ctor, [V0])], V0), ('threshold from setValue()', [(ctor, [V0]), (setv, [tid, V1])], V1),
                                ('setValue() of another parameter', [(ctor, [V0]), (setv, [add(tid, ONE), V1])], V0), ('last of two setValue()', [(ctor, [V0]), (setv, [tid, V0]), (setv, [tid, V1])], V1)):
            t = dbconv(ctx, thr)
            for inplace in (False, True):
                out = IN if inplace else OUT
                s = ctx.seq(rec, pre + [(prep, [('in', P('rate')), NIN, NIN if inplace else NOUT, MAXB]), (proc, [IN, out, ENV])])
                fs = list(s.st.asm) + [lt(C_, NIN), lt(F_, FIN), le(FIN, MAXB)] + ([] if inplace else [eq(NIN, NOUT), eq(FIN, FOUT)])
                F = Facts(fs, [C_, F_])
                x = ('sel', SIN, ('ix', C_, F_))
                got = sel(s.arr(out + SKEY), ('ix', C_, F_))
                want = tmin(tmax(x, neg(t)), t)
                small = lambda u: u in (V0, V1)
                ctx.same('sample value', proc, got, want, F, label + (', in place' if inplace else ''), special=[(lambda t: t in (C_, F_), lambda r, t: r.choice([0, 1, 2])), (small, lambda r, t: r.uniform(-30, 10))], n=600)
        lay = ctx.method(rec, 'supportsChannelLayout', 2)
        s = ctx.run(lay, rec, [NIN, NOUT])
        grid(ctx, 'layouts', lay, s.ret, [NIN, NOUT], lambda a, b: a == b, (1, 2, 3, 4, 7, 128), 'accepts n-to-n layouts only')
    ctx.guard('hard clip', 'hart::HardClip', one)
