"""plotData is summarised for both sample types with arbitrary buffers, rate and path; drawing calls on the plot library are boundary
events. For the input and for the output: one line object is made per channel (the rounds of its loop, under its path condition, are
exactly the channels), on a plot of its own; points are added to it only from that buffer's samples, one per frame (coverage of
the frame loop again proved), with sample [channel][frame], in ascending order, at time frame / rate counted from zero for every
channel (also when the clock is carried across rounds); the figure is written once to the given path, after everything was drawn."""
from .common import *
from engine.prog import walk

RATE_, PATH = ('in', P('rate')), P('path')
PL = 'signalsmith::plot::'

def check(ctx):
    fs = [f for f in ctx.prog.fns.values() if f['q'] == 'hart::plotData' and f.get('body') is not None and len(f['params']) == 4]
    if not fs: raise Missing('plotData')
    seen = set()
    for f in fs:
        t = ctx.prog.strip(f['params'][0]['t'])['s']
        if t in seen: continue
        seen.add(t); ty = 'float' if 'float' in t else 'double'; ctx.guard('plot', f, plot, ctx, f, ty); ctx.guard('time', f, clock, ctx, f, ty)

def plot(ctx, f, ty):
    s = ctx.run(f, None, [IN, OUT, RATE_, PATH])
    evs = sorted((e for e in s.log if e.kind in ('call', 'icall') and e.pc != FALSE and str(e.q).startswith(PL)), key=lambda e: e.seq)
    lines = {e.id: e for e in evs if e.n == 'line'}
    pts = {i: [] for i in lines}
    for e in evs:
        o = owner(e.this)
        if o in lines:
            if e.n == 'add': pts[o].append(e)
            elif e.n in ('addArray', 'cut', 'addFunction', 'dot') : ctx.unk('points', e, '%s on a line' % e.n); return
    if not lines: ctx.unk('lines', f, 'no line is drawn in a way that is understood'); return
    got = {}
    for i, es in pts.items():
        bufs = {b for e in es for b in buffers(e.args)}
        if not es: ctx.unk('points', lines[i], '%s: a line to which no points are seen to be added' % ty); continue
        if len(bufs) != 1: (ctx.bad if len(bufs) == 2 and all(len(buffers(e.args)) == 1 for e in es) else ctx.unk)('points', lines[i], '%s: a line of samples of %s' % (ty, ' and '.join(sorted(bufs)) or 'neither buffer')); continue
        got.setdefault(bufs.pop(), []).append(i)
    for b in ('input', 'output'):
        if b not in got: (ctx.bad if all(pts.values()) and got and not odd(pts) else ctx.unk)('lines', f, '%s: no line of the %s is drawn' % (ty, b)); continue
        if len(got[b]) > 1: ctx.unk('lines', lines[got[b][1]], '%s: lines of the %s are drawn in %d places' % (ty, b, len(got[b]))); continue
        ctx.guard('lines', f, draw, ctx, s, ty, b, lines[got[b][0]], pts[got[b][0]])
    if all(len(got.get(b, ())) == 1 for b in ('input', 'output')):
        a, b = (lines[got[x][0]].this for x in ('input', 'output'))
        ctx.must('plots', lines[got['output'][0]], cell(evs, a) != cell(evs, b) if cell(evs, a) and cell(evs, b) else None if a == b or not (a and b) else True, '%s: input and output have a plot each' % ty)
        for e in evs:
            if e.n != 'title' or not e.args or e.args[0][0] != 'str': continue
            for x, mine, other in (('input', a, 'utput'), ('output', b, 'nput')):
                if e.this == mine and re_word(e.args[0][1], other) and not re_word(e.args[0][1], x[1:]): ctx.bad('plots', e, '%s: the plot of the %s is titled "%s"' % (ty, x, e.args[0][1]))
    ws = [e for e in evs if e.q == PL + 'Figure::write' or e.n == 'write' and 'Figure' in e.q or e.n == 'write' and 'SvgDrawable' in e.q or e.n == 'write']
    if not ws: ctx.bad('file', f, '%s: the figure is never written' % ty); return
    if len(ws) > 1: ctx.unk('file', ws[1], '%s: written in %d places' % (ty, len(ws))); return
    w = ws[0]; last = max(e.seq for es in pts.values() for e in es) if any(pts.values()) else -1
    ctx.must('file', w, w.seq > last, '%s: written after everything was drawn' % ty)
    ctx.must('file', w, True if w.args[0] in (('in', PATH), PATH, ('loc', PATH)) else None if w.args[0][0] != 'str' else False, '%s: written to the given path' % ty)
    if w.loops: ctx.unk('file', w, '%s: written in a loop' % ty)
    else: cond(ctx, 'file', w, w.pc, '%s: written' % ty)

def clock(ctx, f, ty):
    """no single precision number on the way to a point's time, by the types of the syntax tree"""
    calls, writes, seen = [], {}, set()
    for g in [x for x in ctx.prog.fns.values() if x.get('body') is not None and x.get('file') == f['file']]:
        def v(n):
            if n['k'] == 'call' and n.get('n') == 'add' and str(n.get('q', '')).startswith(PL) and len(n['args']) == 2: calls.append((g, n))
            if n['k'] == 'asg' and n['a'].get('k') == 'ref': writes.setdefault((g['id'], n['a']['d']), []).append(n['b'])
            if n['k'] == 'decl':
                for d in n['v']:
                    if d.get('init') is not None: writes.setdefault((g['id'], d['id']), []).append(d['init'])
        walk(g['body'], v)
    for g, c in calls:
        if g['q'] == f['q'] and g['id'] != f['id']: continue
        low = []
        def v(n):
            if n['k'] in ('lambda', 'call') or low: return n['k'] != 'lambda'
            t = ctx.prog.strip(n['t']) if n.get('t') is not None else {}
            if t.get('k') == 'float' and t.get('bits') == 32 and (n['k'] in ('cast', 'ref', 'bin', 'una')): low.append(n)
            if n['k'] == 'ref' and (g['id'], n['d']) not in seen:
                seen.add((g['id'], n['d']))
                for w in writes.get((g['id'], n['d']), ()): walk(w, v)
        walk(c['args'][0], v)
        at = (g['file'], (low or [c])[0].get('l', g['line']))
        if low: ctx.bad('time', at, '%s: time is held in single precision: in a long signal consecutive samples are not one period apart' % ty)
        else: ctx.ok('time', at, '%s: time is held in double precision' % ty)

def odd(pts): return any(not buffers(e.args) for es in pts.values() for e in es)
def re_word(t, w): return w in t

def owner(this):
    if this and isinstance(this[0], tuple) and this[0][0] == 'deref' and this[0][1][0] == 'ev': return this[0][1][1]
    return None

def cell(evs, this):
    """the cell of the figure a plot was made in"""
    e = next((e for e in evs if e.id == owner(this)), None)
    while e is not None and e.n != 'operator()':
        e2 = next((x for x in evs if x.id == owner(e.this)), None)
        if e2 is e or e2 is None: return None
        e = e2
    return (e.this, tuple(e.args)) if e is not None and all(isnum(a) for a in e.args) else None

def buffers(ts):
    r = set()
    for t in ts:
        for y in [t] + list(subterms(t)):
            if y == SIN: r.add('input')
            if y == SOUT: r.add('output')
    return r

def cond(ctx, rule, e, pc, what):
    """nothing that can happen prevents it"""
    if pc == TRUE: ctx.ok(rule, e, what); return True
    p = possible(ctx, not_(pc))
    if p is False: ctx.ok(rule, e, what); return True
    (ctx.bad if p else ctx.unk)(rule, e, '%s only when %s' % (what, clip(show(pc)))); return False

def rounds(ctx, s, rule, e, L, pc, n, what, given=TRUE):
    """e happens for exactly the counter values 0..n-1 of loop L"""
    lp = s.loops[L]; K = ('kap', L); reached = Facts([given]).simp(lp.pc)
    if lp.exitcond != FALSE or lp.T is None or reached != TRUE:
        if lp.T is not None and reached == TRUE and possible(ctx, lp.exitcond): ctx.bad(rule, e, '%s: stops when %s' % (what, clip(show(lp.exitcond))))
        elif lp.T is not None and lp.exitcond == FALSE and possible(ctx, not_(reached)): ctx.bad(rule, e, '%s: only when %s' % (what, clip(show(reached))))
        else: ctx.unk(rule, e, what + ': the loop is not understood')
        return False
    m = {K: ('in', P('k#size'))}
    a, b = and_(lt(m[K], subst(lp.T, m)), subst(pc, m)), lt(m[K], n)
    if a == b: ctx.ok(rule, e, what); return True
    if any(y[0] in sem.OPAQUE and y[0] != 'sel' for y in [a] + list(subterms(a))): ctx.unk(rule, e, '%s: %s' % (what, clip(show(a)))); return None
    r = compare(a, b, None, n=400, seed=ctx.seed, want='b', special=[(lambda t: sem.is_unsigned_leaf(t), lambda r, t: r.choice([0, 1, 2, 3, 7, 8, 9, 100, 1000, 44100, 48000, 10 ** 6, 10 ** 6 + 1]))])
    if r == 'eq': ctx.ok(rule, e, what); return True
    if r[0] == 'ne': ctx.bad(rule, e, '%s: happens when %s, not when %s' % (what, clip(show(a)), clip(show(b)))); return False
    if pc != TRUE and lp.T == n:
        p = possible(ctx, subst(not_(pc), m))
        if p: ctx.bad(rule, e, '%s: only when %s' % (what, clip(show(pc)))); return False
    ctx.unk(rule, e, '%s: %s' % (what, r[1])); return None

def draw(ctx, s, ty, b, ln, es):
    S_, NCH, NFR = (SIN, NIN, FIN) if b == 'input' else (SOUT, NOUT, FOUT)
    w = '%s, %s' % (ty, b)
    e = es[0]
    if len(es) > 1:
        (ctx.bad if all(x.loops == e.loops and x.pc == TRUE for x in es) else ctx.unk)('points', es[1], '%s: points are added to a line in %d places' % (w, len(es))); return
    if len(e.args) != 2 or len(e.loops) != 2:
        ctx.unk('points', e, '%s: how points are added' % w); return
    K, M = e.loops
    x, y = e.args
    if y[0] in ('f32', 'narrow') : y = y[1]
    if y[0] != 'sel' or y[1] != S_ or len(y[2]) != 3: (ctx.bad if pure(y) and y[0] != 'sel' else ctx.unk)('points', e, '%s: %s is drawn, not a sample' % (w, clip(show(y)))); return
    if ln.loops != (K,):
        (ctx.bad if ln.loops == () and ('kap', K) in [y[2][1]] + list(subterms(y[2][1])) or ln.loops == (K, M) else ctx.unk)('lines', ln, '%s: one line per channel: made %s' % (w, 'once for all channels' if not ln.loops else 'for every sample')); return
    kK, kM = ('kap', K), ('kap', M)
    m = {kK: ('in', P('c#size')), kM: ('in', P('f#size'))}
    ctx.same('samples', e, subst(y[2][1], m), m[kK], what='%s: line number c shows channel c' % w)
    ctx.same('samples', e, subst(y[2][2], m), m[kM], what='%s: point number f of a line is frame f' % w)
    # the clock
    want = ('div', m[kM], RATE_)
    ph = {t for t in [x] + list(subterms(x)) if t[0] in ('phi', 'lo')}
    if any(t[1] != K or t[0] == 'lo' or t[2] not in s.loops[K].phis for t in ph): ctx.unk('time', e, '%s: time is %s' % (w, clip(show(x))))
    else:
        first = {t: s.loops[K].phis[t[2]][0] for t in ph}
        second = {t: subst(s.loops[K].phis[t[2]][1], first) for t in ph}
        for mm, what in ((first, 'time of frame f is f / rate'), (second, 'time of frame f is f / rate in the second channel too')):
            if mm is second and not ph: break
            v = subst(subst(x, mm), m)
            if any(t[0] in ('phi', 'lo', 'kn') for t in [v] + list(subterms(v))): ctx.unk('time', e, '%s: %s: %s' % (w, what, clip(show(v)))); break
            if v == want: ctx.ok('time', e, '%s: %s' % (w, what)); continue
            if ctx.same('time', e, v, want, Facts([lt(ZERO, RATE_)]), '%s: %s' % (w, what)) is False: break
    rounds(ctx, s, 'lines', ln, K, ln.pc, NCH, '%s: one line for every channel' % w)
    rounds(ctx, s, 'points', e, M, Facts([ln.pc]).simp(e.pc), NFR, '%s: one point for every frame' % w, ln.pc)

