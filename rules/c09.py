"""For every stock signal, envelope and effect the constructor, prepare and reset are summarised in sequence: made, prepared,
everything a render changes replaced by unknowns, reset (and, in the order used by the hosts, prepared again). Every field that
the audio depends on (closure over values, conditions and carried state of the render function) must be back at the value it
has in a freshly made and prepared object. Hosts: the summaries of Signal::resetWithDSPChain, DSP::resetWithEnvelopes,
AudioTestBuilder::process() and EqualsTo::reset() reach the object, each effect of its chain and each of their envelopes
once, before any audio."""
from .render import *
from .proc import *
from . import c05, c07, c26

def check(ctx):
    for q in SIGNALS: ctx.guard('restored', q, restored, ctx, ctx.rec(q), lambda q=q: signalblock(ctx, q), 3, [('in', P('rate')), ('in', P('ch#size')), ('in', P('max#size'))])
    for r in ctx.subclasses('hart::DSP'):
        if ctx.method(r, 'process', 3, req=False): ctx.guard('restored', r['q'], restored, ctx, r, lambda r=r: effectblock(ctx, r), 4, [('in', P('rate')), ('in', P('ci#size')), ('in', P('co#size')), ('in', P('max#size'))])
    for r in ctx.subclasses('hart::Envelope'): ctx.guard('restored', r['q'], restored, ctx, r, lambda r=r: envelopeblock(ctx, r), 2, [('in', P('rate')), ('in', P('max#size'))])
    ctx.guard('reached', 'resetWithDSPChain', chain, ctx)
    ctx.guard('reached', 'resetWithEnvelopes', withenv, ctx)
    ctx.guard('reached', 'process()', host, ctx)
    ctx.guard('reached', 'EqualsTo', equals, ctx)

OBJ = (('P', 'obj'),)
def mine(k): return k[:1] == OBJ

def restored(ctx, rec, block, np, pargs):
    n, f, s, outk, NF, *rest = block(); reads = rest[0]; pre = rest[1] if len(rest) > 1 else {}; facts = rest[2] if len(rest) > 2 else ()
    O = observed(s, outk, NF, pre, facts)
    if O is None: raise Missing('what %s renders' % n)
    W = set(writtenfields(s)); R = {y[1] for y in O.reads}
    prep = ctx.method(rec, 'prepare', np, req=False); rs = ctx.method(rec, 'reset', 0)
    k = 0
    if not W: ctx.ok('restored', f, '%s: rendering changes nothing' % n)
    cfg = settings(ctx, rec, W) & R if ctx.base(rec, 'hart::DSP') is None else set()
    for c in ctx.ctors(rec):
        if ctx.iscopy(rec, c) or c.get('body') is None: continue
        args = [P('p%d' % i) if ctx.prog.ty(p['t'])['k'] in ('ref', 'rref') else ('in', P('p%d' % i)) for i, p in enumerate(c['params'])]
        k += 1
        def fresh():
            e = ctx.engine(); st = State(); e.dyn[OBJ] = rec['id']
            st, _ = e.run(c, this=OBJ, args=args, st=st)
            for key in cfg: st.store[OBJ + key[1:]] = ('in', OBJ + ('set',) + key[1:])      # settings made since then
            return e, st
        def call(e, st, fn, a):
            st, _ = e.run(fn, this=OBJ, args=a, st=st); ctx.fns.add(fn['q'])
            if st is None: raise Missing('%s never returns' % fn['q'])
            return st
        def val(e, st, key):
            key = OBJ + key[1:]
            if key[-1] == ('[]',) or '[]' in repr(key[-1:]): return e.read_arr(key, st)
            return e.read(key, st)
        for order in ('reset', 'reset, prepared'):
            e1, st1 = fresh()
            if prep: st1 = call(e1, st1, prep, pargs)
            want = {key: val(e1, st1, key) for key in R}
            e2, st2 = fresh()
            if prep: st2 = call(e2, st2, prep, pargs)
            for key in W: st2.store[OBJ + key[1:]] = ('in', OBJ + ('havoc',) + key[1:])
            st2 = call(e2, st2, rs, [])
            if 'prepared' in order and prep: st2 = call(e2, st2, prep, pargs)
            for key in sorted(R, key=repr):
                a, b = val(e2, st2, key), want[key]
                what = '%s: %s after reset%s' % (n, showfield(key), ' and prepare' if 'prepared' in order else '')
                if a == b or iso(e2.loops, a, e1.loops, b): ctx.ok('restored', rs, '%s is as when new (%s)' % (what, clip(show(b), 60))); continue
                a, g1 = noturns(e2.loops, a); b, g2 = noturns(e1.loops, b)
                r = compare(a, b, None, n=300, seed=ctx.seed, guard=and_(g1, g2), special=[(lambda t: t[0] == 'in' and sem.is_unsigned_leaf(t), lambda r, t: r.choice(SMALL))])
                if r == 'eq' and and_(g1, g2) != TRUE: r = ('?', 'a loop')
                if r == 'eq': ctx.ok('restored', rs, '%s is as when new' % what)
                elif r[0] == 'ne' or known(a) and known(b) and a != b: ctx.bad('restored', rs, '%s: is %s, in a new one %s' % (what, clip(show(a), 150), clip(show(b), 150)))
                else: ctx.unk('restored', rs, '%s: %s, in a new one %s' % (what, clip(show(a), 150), clip(show(b), 150)))
    if not k and W: raise Missing('constructor of ' + n)

LIFE = ('prepare', 'reset', 'renderNextBlock', 'process', 'copy', 'move', 'represent', 'getFailureDetails')
def settings(ctx, rec, W):
    """fields changed by what a user may call between making and using an object, other than those a render changes"""
    out = set()
    for f in ctx.methods(rec):
        if f.get('kind') == 'ctor' or f['n'] in LIFE or f['n'].startswith('operator') or f.get('access') not in (None, 'public') or f.get('const'): continue
        try: s = ctx.run(f, rec, [P('q%d' % i) if ctx.prog.ty(p['t'])['k'] in ('ref', 'rref') else ('in', P('q%d' % i)) for i, p in enumerate(f['params'])])
        except Exception: continue
        if s.st is None: continue
        out |= {k for k in writtenfields(s) if k not in W}
    return out

def known(t):
    """a value that is plainly one thing: a fresh unknown left by a render, or an input"""
    return t[0] in ('in', 'int', 'flt', 'bool') or t[0] == 'uf' and all(known(x) for x in t[2:] if isinstance(x, tuple))

def showfield(k): return '.'.join(str(x) for x in k[1:] if isinstance(x, str))

# ---------------------------------------------------------------- hosts
def chain(ctx):
    rec = ctx.rec('hart::Signal'); V = c26.chain(type('Quiet', (), {'__getattr__': lambda self, n: getattr(ctx, n), 'ok': lambda *a: None, 'bad': lambda *a: None, 'unk': lambda *a: None, 'same': lambda *a, **k: None, 'must': lambda *a: None})(), rec)
    if V is None: raise Missing('the chain of effects')
    f = ctx.method(rec, 'resetWithDSPChain', 0); s = ctx.run(f, rec, [])
    once(ctx, 'reached', f, s, 'hart::Signal::reset', ('this',), 'resetWithDSPChain: the signal is reset')
    eachonce(ctx, 'reached', f, s, 'hart::DSP::reset', ('this',) + V, 'resetWithDSPChain: every effect of the chain is reset', ordered=False)
    rewound(ctx, 'resetWithDSPChain', f, s)

def withenv(ctx):
    rec = ctx.rec('hart::DSP'); f = ctx.method(rec, 'resetWithEnvelopes', 0); s = ctx.run(f, rec, [])
    once(ctx, 'reached', f, s, 'hart::DSP::reset', ('this',), 'resetWithEnvelopes: the effect is reset')
    rewound(ctx, 'resetWithEnvelopes', f, s)

def rewound(ctx, lab, f, s, before=None):
    """every envelope of each effect that is reset is reset as well"""
    for e in [e for e in s.log if e.kind == 'icall' and e.q == 'hart::DSP::reset' and e.pc != FALSE]:
        what = '%s: every envelope of %s is reset' % (lab, showloc(e.this))
        es = [x for x in s.log if x.kind == 'icall' and x.q == 'hart::Envelope::reset' and x.pc != FALSE]
        ea, _ = c05.alpha(e, e.this); hit = None; good = []
        for x in es:
            own = c07.envowner(x)
            if own is None or not x.loops: continue
            L = x.loops[-1]; outer = x.loops[:-1]
            oa = c05.replace(own, {('kap', l): ('kap', 'L%d' % i) for i, l in enumerate(l for l in outer if any(y == ('kap', l) for y in c05.walkt(own)))})
            if oa != ea: continue
            hit = x; lp = s.loops[L]
            full = lp.T is not None and 'msize' in lp.T[:2] and lp.exitcond == FALSE and lp.over is not None and x.this and ('kap', L) in list(c05.walkt(x.this))
            if x.pc == TRUE and lp.pc == TRUE and full and all(c05.whole(s, l, x) for l in outer): ctx.ok('reached', x, what); break
            if full:
                p = possible(ctx, not_(and_(x.pc, lp.pc, *[s.loops[l].pc for l in outer])))
                (ctx.bad if p else ctx.unk)('reached', x, '%s: only when %s' % (what, clip(show(and_(x.pc, lp.pc, *[s.loops[l].pc for l in outer]))))); break
        else:
            if hit is not None: ctx.unk('reached', hit, what)
            else: (ctx.unk if any(c07.envowner(x) is None for x in es) or calls(s) else ctx.bad)('reached', e, what + ': never')

def calls(s): return [e for e in s.log if e.kind == 'call' and e.pc != FALSE and e.q.startswith('hart::')]

def host(ctx):
    s = process(ctx); A = accum(ctx); proc = A.proc[0].this; sig = A.rend[0].this
    first = min(A.proc[0].id, A.rend[0].id)
    for q, this, what in (('hart::DSP::reset', proc, 'the tested effect'), ('hart::Signal::reset', sig, 'the input signal')):
        es = [e for e in s.log if e.kind == 'icall' and e.q == q and e.this == this and e.pc != FALSE and not e.loops]
        pre = [e for e in es if e.id < first]
        what = 'process(): %s is reset before any audio' % what
        if not pre: (ctx.unk if calls(s) and not es else ctx.bad)('reached', A.proc[0], what + ': never'); continue
        e = pre[0]
        if e.pc == TRUE or sem.implies(and_(*e.asm) if e.asm else TRUE, e.pc): ctx.ok('reached', e, what)
        else:
            p = possible(ctx, not_(or_(*[x.pc for x in pre])), e.asm)
            (ctx.bad if p else ctx.unk)('reached', e, '%s: only when %s' % (what, clip(show(e.pc))))
        prev = [x for x in s.log if x.kind == 'icall' and x.id < e.id and x.q in ('hart::DSP::setValue',) and x.this == this]
        if prev: ctx.ok('reached', e, 'values are set before')
    ev = [e for e in s.log if e.kind == 'icall' and e.q == 'hart::DSP::reset' and e.pc != FALSE and elemof(e.this)]
    (ctx.ok if ev else ctx.unk if calls(s) else ctx.bad)('reached', A.rend[0], 'process(): the effects of the signal\'s chain are reset')
    rewound(ctx, 'process()', None, s)

def equals(ctx):
    rec = ctx.rec('hart::EqualsTo'); f = ctx.method(rec, 'reset', 0); s = ctx.run(f, rec, [])
    es = [e for e in s.log if e.kind == 'icall' and e.q == 'hart::Signal::reset' and e.pc != FALSE]
    if not es: (ctx.unk if calls(s) else ctx.bad)('reached', f, 'EqualsTo::reset: the reference signal is not reset'); return
    unconditional(ctx, 'reached', es[0], es[0].pc, 'EqualsTo::reset: the reference signal is reset', es[0].asm) and ctx.ok('reached', es[0], 'EqualsTo::reset: the reference signal is reset')
    ev = [e for e in s.log if e.kind == 'icall' and e.q == 'hart::DSP::reset' and e.pc != FALSE and elemof(e.this)]
    (ctx.ok if ev else ctx.unk if calls(s) else ctx.bad)('reached', f, 'EqualsTo::reset: the effects of the reference signal\'s chain are reset')
    rewound(ctx, 'EqualsTo::reset', f, s)
