"""Unit inference over the summaries of every library function (rules/units.py). Parameters of the public interface carry their unit;
fields get theirs from what is stored in them, samples are linear, counts of frames and channels are told apart. Every sum,
comparison, choice, product, power, logarithm and angle in every condition, stored value, argument and result is checked: decibels
only become linear as 10^(x/20) and linear values only become decibels as 20 log10(x), each once; decibels are never multiplied
with or compared to linear values; seconds, hertz, radians, frames and channels are never added, compared or passed for one
another. Sinks: samples written, values printed with a unit's label, the results of documented functions, the arguments of prepare() and the like."""
from .common import *
from .units import *
from .c29 import labels

SINKS = {'prepare', 'prepareWithEnvelopes', 'prepareWithDSPChain', 'supportsSampleRate', 'supportsNumChannels', 'supportsChannelLayout'}

def check(ctx):
    tab, bad = fields(ctx)
    for k, (e, a, b) in bad.items(): ctx.bad('fields', e, '%s: %s holds %s, but %s is stored in it' % (k[0], showloc(k[1])[5:], name(a), name(b)))
    n = {}
    for rid, fs in tab.items():
        r = ctx.prog.recs[rid]
        for k, u in fs.items():
            if any(b[0] == r['q'] and b[1] == k for b in bad): continue
            n[(r['q'], k)] = u
    for (q, k), u in n.items(): ctx.ok('fields', q, '%s: %s holds nothing but %s' % (q, showloc(k)[5:], name(u)))
    groups = {}
    for f, r, s, env in runs(ctx):
        if s is None: ctx.unk('arithmetic', f, '%s: %s' % (f['q'], env)); continue
        ctx.guard('arithmetic', f, function, ctx, f, r, s, env, tab, groups)
    for q, (f, n) in groups.items():
        if n: ctx.ok('arithmetic', f, '%s: the units of %d terms agree' % (q, n))

def function(ctx, f, r, s, env, tab, groups):
    u = InClass(ctx, env, tab.get(r['id'], {}) if r else {}, loopmap(s), s.log); seen = set(); n = 0
    def see(t, e):
        nonlocal n
        if not (isinstance(t, tuple) and t and isinstance(t[0], str)): return None
        k = len(u.clash); x = u.unit(t); n += 1
        for what, a, b, y in u.clash[k:]:
            c = (what, str(a), str(b))
            if c in seen: continue
            seen.add(c); ctx.bad('arithmetic', e, '%s: %s %s%s in %s' % (f['q'], name(a), what, ' ' + name(b) if b is not None else '', clip(show(y))))
        return x
    def sink(x, want, e, what):
        if known(x) and not fits(x, want): ctx.bad('sinks', e, '%s: %s is %s, not %s' % (f['q'], what, name(x), name(want)))
    for e in s.log:
        if e.pc == FALSE: continue
        see(e.pc, e)
        if e.kind in ('write', 'push', 'out', 'append'):
            x = see(getattr(e, 'val', None), e)
            if e.kind == 'out' and known(x):
                lb = labels(s.log, e)
                if lb and lb[1] in NAME: sink(x, lb[1], e, 'what is printed as %s' % lb[0])
            if e.kind == 'write' and any(y == '#s' or isinstance(y, tuple) and y and y[0] == '#s' for y in e.loc): sink(x, 'lin', e, 'what is written to a sample')
        if e.kind in ('call', 'icall'):
            us = [see(a, e) for a in e.args]
            if e.n in SINKS and str(getattr(e, 'q', 'hart::')).startswith('hart::'):
                want = api(ctx, {'q': e.q, 'n': e.n, 'params': e.args})
                for i, (x, w) in enumerate(zip(us, want)):
                    if w: sink(x, w, e, 'argument %d of %s()' % (i + 1, e.n))
    if s.ret is not None:
        if s.ret[0] == 'obj':
            fs = tab.get(ctx.prog.strip(f['rt']).get('rid') if isinstance(f.get('rt'), int) else None, {})
            for loc, v in s.st.store.items():
                if loc[:len(s.ret[1])] != s.ret[1] or not isinstance(v, tuple): continue
                w = fs.get(('this',) + key(loc[len(s.ret[1]):])); x = see(v, f)
                if w and known(x) and not fits(x, w): ctx.bad('fields', f, '%s: the object it returns has %s in %s, which holds %s' % (f['q'], name(x), loc[-1], name(w)))
        x = see(s.ret, f); w = RETURNS.get(f['q'])
        if w: sink(x, w, f, 'the result')
    q = groups.get(f['q'], (f, 0)); groups[f['q']] = (f, q[1] + n)
