"""Summaries of the signal's chain functions: rendering has exactly one render of the signal, before one loop that passes the
block through every element of the chain, once each and in ascending order, every element reading what the previous one (first:
the render) wrote and writing to the same block; preparing, resetting and representing reach the signal and every element once.
Each form of attaching (followedBy and >> in every overload) makes exactly one new element at the end of that signal's chain,
unconditionally, which is a copy of, or takes over, the given effect, and returns the signal."""
from .common import *
from . import c05

def check(ctx):
    rec = ctx.rec('hart::Signal')
    V = ctx.guard('attaching', 'followedBy', chain, ctx, rec)
    if V is None: ctx.unk('attaching', 'Signal', 'the chain of effects was not found'); return
    ctx.guard('rendering', 'renderNextBlockWithDSPChain', render, ctx, rec, V)
    ctx.guard('reset', 'resetWithDSPChain', reach, ctx, rec, V, 'resetWithDSPChain', 'reset', 0)
    ctx.guard('prepared', 'prepareWithDSPChain', reach, ctx, rec, V, 'prepareWithDSPChain', 'prepare', 3)
    ctx.guard('representation', 'representWithDSPChain', represent, ctx, rec, V)
    ctx.guard('attaching', 'operators', operators, ctx, rec, V)

def chain(ctx, rec):
    """the list that followedBy adds to"""
    vs = set(); rows = []
    for f in ctx.methods(rec, 'followedBy'):
        s = ctx.run(f, rec, [P('d')]); rows.append((f, s))
        for e in s.log:
            if e.kind == 'push' and e.pc != FALSE and e.vec[:1] == ('this',): vs.add(e.vec[1:])
    if not rows: raise Missing('followedBy')
    if len(vs) > 1:
        good = [v for v in vs if any(e.kind == 'icall' and e.q == 'hart::DSP::process' and elemof(e.this) and elemof(e.this)[0] == ('this',) + v for e in ctx.run(ctx.method(rec, 'renderNextBlockWithDSPChain', 1), rec, [P('block')]).log)]
        if len(good) == 1:
            for f, s in rows: appended(ctx, f, s, ('this',), good[0])
            return good[0]
    if len(vs) != 1: return None
    V = vs.pop()
    for f, s in rows: appended(ctx, f, s, ('this',), V)
    return V

def appended(ctx, f, s, sig, V):
    lab = '%s (%s)' % (f['n'], ', '.join(ctx.prog.ty(p['t'])['s'] for p in f['params']))
    ps = [e for e in s.log if e.kind == 'push' and e.pc != FALSE]
    mine = [e for e in ps if e.vec == sig + V]
    if not mine: (ctx.unk if ps or [e for e in s.log if e.kind in ('call', 'vmess', 'vassign') and e.pc != FALSE] else ctx.bad)('attaching', f, '%s adds nothing to the chain' % lab); return
    if len(mine) > 1:
        (ctx.bad if len([e for e in mine if e.pc == TRUE]) > 1 else ctx.unk)('attaching', mine[1], '%s adds more than one effect' % lab); return
    e = mine[0]
    if e.loops: ctx.unk('attaching', e, '%s adds in a loop' % lab); return
    if not unconditional(ctx, 'attaching', e, e.pc, '%s adds the effect' % lab, e.asm): return
    n = s.read(sig + V + ('#size',))
    ctx.same('attaching', e, n, add(('in', sig + V + ('#size',)), ONE), None, '%s adds exactly one effect' % lab)
    if e.at is None: ctx.unk('attaching', e, '%s: position of the new effect' % lab)
    else: ctx.same('attaching', e, e.at, ('in', sig + V + ('#size',)), None, '%s adds at the end of the chain' % lab)
    for w in s.log:
        if w.kind == 'write' and w.loc[:len(sig) + len(V)] == sig + V and w.loc[-1] != '#size' and w.loc[:len(e.el)] != e.el: ctx.unk('attaching', w, '%s changes other elements of the chain' % lab)
    v = e.val; cp = {x.id: x for x in s.log if x.kind == 'icall' and x.n in ('copy', 'move')}
    if v is None: ctx.unk('attaching', e, '%s: what is stored' % lab); return
    if v == P('d') or v == ('in', P('d')) or v[0] in ('obj', 'loc') and v[1] == P('d'): ctx.ok('attaching', e, '%s takes over the given effect' % lab)
    elif v[0] == 'ev' and v[1] in cp and cp[v[1]].this == P('d'): ctx.ok('attaching', e, '%s keeps a copy of the given effect' % lab)
    elif v[0] == 'ev' and v[1] in cp: ctx.bad('attaching', e, '%s keeps a copy of %s' % (lab, showloc(cp[v[1]].this)))
    elif v[0] == 'addr' and v[1][0][0] == 'new':
        t = ctx.prog.strip(f['params'][-1]['t'])
        q = v[1][0][2]
        ctx.must('attaching', e, True if t['s'].replace('class ', '').replace('const ', '') == q else None, '%s keeps a new %s made from the given effect' % (lab, q))
    elif v == ('null',): ctx.bad('attaching', e, '%s stores no effect' % lab)
    else: ctx.unk('attaching', e, '%s stores %s' % (lab, clip(show(v) if isinstance(v[0], str) else showloc(v))))
    r = s.ret
    ctx.must('attaching', f, True if r == ('loc', sig) or r == ('addr', sig) else (False if r and r[0] == 'loc' else None), '%s returns the signal' % lab)

def operators(ctx, rec, V):
    fs = [f for f in ctx.prog.byq.get('hart::operator>>', []) if f.get('body') is not None and len(f['params']) == 2]
    if not fs: raise Missing('operator>>')
    done = set()
    for f in fs:
        if f['line'] in done and ctx.tier == 'quick': continue
        done.add(f['line'])
        s = ctx.run(f, None, [P('sig'), P('d')])
        appended(ctx, f, s, P('sig'), V)

def render(ctx, rec, V):
    f = ctx.method(rec, 'renderNextBlockWithDSPChain', 1); s = ctx.run(f, rec, [P('block')])
    r = once(ctx, 'rendering', f, s, 'hart::Signal::renderNextBlock', ('this',), 'the signal itself is rendered once')
    p = eachonce(ctx, 'rendering', f, s, 'hart::DSP::process', ('this',) + V, 'the block passes once through every effect, in the order attached')
    if r is None or p is None: return
    ctx.must('rendering', p, r.id < p.id, 'the effects run after the signal has been rendered')
    dst = r.args[0]
    if dst[0] != 'loc': ctx.unk('rendering', r, 'block rendered into'); return
    B = dst[1]; S = B + SKEY; L = p.loops[0]; lp = s.loops[L]
    ctx.must('rendering', r, True if B == P('block') else None, 'the signal renders into the given block')
    R = ('evout', r.id, 0)
    def snap(j):
        sn = p.snap.get(j) or {}
        return sn.get('#s') if '#s' in sn else None
    a = snap(0); out = p.args[1]
    if a is None or out[0] != 'loc': ctx.unk('rendering', p, 'what the effects read'); return
    # value that reaches the effect: rendered audio at first, then the previous effect's output
    if p.args[0] == ('loc', B) and out == ('loc', B) and a[0] == 'phi' and a[2] in lp.phis:
        i, n = lp.phis[a[2]]
        ctx.must('rendering', p, True if i == R else (None if not understoodS(i) else False), 'the first effect gets the rendered audio (%s)' % clip(show(i), 120))
        ctx.must('rendering', p, True if n == ('evout', p.id, 1) else (None if not understoodS(n) else False), 'each effect gets what the previous one wrote (%s)' % clip(show(n), 120))
    else:
        ctx.must('rendering', p, None if not (p.args[0][0] == 'loc' and a[0] in ('evout', 'in', 'constarr') and out[0] == 'loc') else False if a == R and not any(k[:len(p.args[0][1])] == p.args[0][1] for k in lp.phis) else None, 'every effect gets the previous one\'s output (reads %s)' % clip(show(a), 200))
    fin = s.arr(P('block') + SKEY)
    ctx.must('rendering', p, True if fin == ('lo', L, S) or fin == ('evout', p.id, 1) else None, 'the block ends up holding the last effect\'s output')

def understoodS(t): return t[0] in ('evout', 'in', 'constarr', 'phi')

def reach(ctx, rec, V, name, what, np):
    f = ctx.method(rec, name, np); s = ctx.run(f, rec, [('in', P('rate')), ('in', P('n#size')), ('in', P('max#size'))][:np])
    a = once(ctx, what, f, s, 'hart::Signal::' + what, ('this',), '%s reaches the signal once' % name)
    b = eachonce(ctx, what, f, s, 'hart::DSP::' + what, ('this',) + V, '%s reaches every effect of the chain once' % name, ordered=False)

def represent(ctx, rec, V):
    f = ctx.method(rec, 'representWithDSPChain', 1); s = ctx.run(f, rec, [P('stream')])
    a = once(ctx, 'representation', f, s, 'hart::Signal::represent', ('this',), 'the signal is represented once')
    b = eachonce(ctx, 'representation', f, s, 'hart::DSP::represent', ('this',) + V, 'every effect of the chain is represented once, in order')
    if a is None or b is None: return
    ctx.must('representation', b, a.id < b.id, 'the signal comes first')
    for e in (a, b): ctx.must('representation', e, True if e.args == [('loc', P('stream'))] or tuple(e.args) == (('loc', P('stream')),) else None, '%s goes to the given stream' % e.q)
