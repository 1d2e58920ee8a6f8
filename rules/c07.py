"""The arguments of every call event that prepares something, in the summaries of process() (settings made in either order) and
of EqualsTo's preparation, are compared with the configured values: rate, input and output channels and block size for the
tested effect; input channels for the signal and its chain; rate and block size for envelopes, every one of which is prepared;
output channels for matchers, with the block size or the whole duration depending on what their list is judged on. The same
rate reaches the wav file and the plot."""
from .common import *
from .proc import *
from . import c04, c05

def check(ctx):
    for rev in (False, True):
        w = 'process(), settings in reverse order' if rev else 'process()'
        ctx.guard('prepared', w, host, ctx, rev, w)
    ctx.guard('prepared', 'EqualsTo', equals, ctx)
    ctx.guard('envelopes', 'envelopes', envelopes, ctx)

def args(ctx, e, names, wants, lab, facts=None):
    for n, a, w in zip(names, e.args, wants):
        ctx.same('arguments', e, a, w, facts, '%s: %s %s is prepared with' % (lab, showloc(e.this), n), special=[(lambda t: t in (NIN_, NOUT_, BS), lambda r, t: r.choice([1, 2, 3, 8, 9, 64, 128, 1000, 1024, 1025, 2048, 4096, 8192, 65536, 10 ** 6]))])

def host(ctx, rev, lab):
    s = process(ctx, rev=rev); A = accum(ctx, rev); N = ('trunc', ('uf', 'round', mul(RATE, DUR)))
    proc = A.proc[0].this; sig = A.rend[0].this
    kinds = {}
    if not rev:
        c = checks(ctx); B = c04.blockloop(ctx)
        for e, v, k in c.events: kinds.setdefault(v, set()).add(B in e.loops)
        ctx._cache['kinds07'] = kinds
    kinds = ctx._cache.get('kinds07', {})
    seen = set()
    for e in s.log:
        if e.kind != 'icall' or e.n != 'prepare' or e.pc == FALSE: continue
        F = Facts([lt(ZERO, RATE), not_(lt(DUR, ZERO))])
        if e.q == 'hart::DSP::prepare':
            seen.add('effect')
            args(ctx, e, ('rate', 'input channels', 'output channels', 'block size'), (RATE, NIN_, NOUT_ if e.this == proc else NIN_, BS), lab)
        elif e.q == 'hart::Signal::prepare': seen.add('signal'); args(ctx, e, ('rate', 'channels', 'block size'), (RATE, NIN_, BS), lab)
        elif e.q == 'hart::Envelope::prepare': seen.add('envelope'); args(ctx, e, ('rate', 'block size'), (RATE, BS), lab)
        elif e.q == 'hart::Matcher::prepare':
            seen.add('matcher')
            k = None
            for v, ks in kinds.items():
                if c04.sameelem(e, v) is not None and len(ks) == 1: k = True in ks
            if k is None: ctx.unk('arguments', e, '%s: what %s is judged on' % (lab, showloc(e.this))); continue
            args(ctx, e, ('rate', 'channels'), (RATE, NOUT_), lab)
            r = compare(e.args[2], BS if k else N, F, n=200, seed=ctx.seed, special=[(lambda t: t == DUR, lambda r, t: r.choice([0.0, 0.1, 0.5, 2.0])), (lambda t: t == RATE, lambda r, t: r.choice([10.0, 44100.0, 8000.0]))])
            lab2 = '%s: %s is told the longest block it will see (%s)' % (lab, showloc(e.this), 'the block size' if k else 'the whole duration')
            if r == 'eq': ctx.ok('arguments', e, lab2)
            elif r[0] == 'ne': ctx.bad('arguments', e, '%s: is told %s' % (lab2, clip(show(e.args[2]))))
            else: (ctx.bad if stale(e.args[2]) else ctx.unk)('arguments', e, '%s: %s' % (lab2, clip(show(e.args[2]))))
        else: ctx.unk('arguments', e, '%s: prepares something else (%s)' % (lab, e.q))
    for x in ('effect', 'signal', 'envelope', 'matcher'):
        if x not in seen: ctx.bad('arguments', A.proc[0], '%s: no %s is ever prepared' % (lab, x))
    for e in s.log:
        if e.kind == 'call' and e.q in WRITERS or e.kind == 'icall' and e.q in WRITERS:
            ra = [a for j, a in enumerate(e.args) if a[0] != 'loc' and RATE in [a] + list(subterms(a)) or a[0] in ('int', 'flt')]
            f = [f for f in ctx.prog.byq.get(e.q, []) if len(f['params']) >= 3]
            ix = next((j for j, p in enumerate(f[0]['params']) if ctx.prog.strip(p['t'])['s'] in ('double', 'float')), None) if f else None
            if ix is None or ix >= len(e.args): ctx.unk('files', e, 'sample rate argument of ' + e.q); continue
            ctx.same('files', e, e.args[ix], RATE, Facts([lt(ZERO, RATE)]), '%s: %s gets the configured sample rate' % (lab, e.n))

def stale(t): return all(x[0] in ('in', 'trunc', 'uf', 'mul', 'prod', 'int', 'flt') for x in [t] + list(subterms(t)))

def equals(ctx):
    s = c05.equalsto(ctx); R, N, M = ('in', P('rate')), ('in', P('n')), ('in', P('max')); lab = 'EqualsTo'; seen = set()
    for e in s.log:
        if e.kind != 'icall' or e.n != 'prepare' or e.pc == FALSE: continue
        if e.q == 'hart::DSP::prepare': args(ctx, e, ('rate', 'input channels', 'output channels', 'block size'), (R, N, N, M), lab)
        elif e.q == 'hart::Signal::prepare': args(ctx, e, ('rate', 'channels', 'block size'), (R, N, M), lab)
        elif e.q == 'hart::Envelope::prepare': args(ctx, e, ('rate', 'block size'), (R, M), lab)
        seen.add(e.q)
    for q in ('hart::DSP::prepare', 'hart::Signal::prepare', 'hart::Envelope::prepare'):
        if q not in seen: ctx.bad('arguments', ctx.method(ctx.rec('hart::EqualsTo'), 'prepare', 3), 'EqualsTo: no %s on its reference signal' % q)

def envelopes(ctx):
    """each envelope attached to an effect that gets audio is prepared, before"""
    for lab, s in (('process()', process(ctx)), ('EqualsTo', c05.equalsto(ctx))):
        for e in [e for e in s.log if e.kind == 'icall' and e.q == 'hart::DSP::process' and e.pc != FALSE]:
            what = '%s: every envelope of %s is prepared before it runs' % (lab, showloc(e.this))
            es = [x for x in s.log if x.kind == 'icall' and x.q == 'hart::Envelope::prepare' and x.id < e.id]
            ea, _ = c05.alpha(e, e.this); hit = None
            for x in es:
                own = envowner(x)
                if own is None or not x.loops: continue
                L = x.loops[-1]; outer = x.loops[:-1]
                oa = c05.replace(own, {('kap', l): ('kap', 'L%d' % i) for i, l in enumerate(l for l in outer if any(y == ('kap', l) for y in c05.walkt(own)))})
                if oa != ea: continue
                hit = x; lp = s.loops[L]
                full = lp.T is not None and 'msize' in lp.T[:2] and lp.exitcond == FALSE and lp.over is not None and x.this and ('kap', L) in list(c05.walkt(x.this))
                if x.pc == TRUE and lp.pc == TRUE and full and all(c05.whole(s, l, x) for l in outer): ctx.ok('envelopes', x, what); break
                if x.pc != TRUE and full: ctx.bad('envelopes', x, '%s: only when %s' % (what, clip(show(x.pc)))); break
            else:
                if hit is not None: ctx.unk('envelopes', hit, what)
                else: (ctx.unk if any(envowner(x) is None for x in es) else ctx.bad)('envelopes', e, what + ': never')

def envowner(x):
    """the effect whose envelope this call is about"""
    t = x.this
    if not (t and isinstance(t[0], tuple) and t[0][0] == 'deref'): return None
    for y in subterms(t[0][1]):
        if y[0] == 'in' and isinstance(y[1], tuple) and 'm_envelopes' in y[1] or y[0] == 'in' and any(isinstance(k, str) and 'nvelope' in k for k in y[1]):
            i = next(i for i, k in enumerate(y[1]) if isinstance(k, str) and 'nvelope' in k)
            return y[1][:i]
    return None
