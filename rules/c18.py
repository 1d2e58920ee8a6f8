"""Abstract interpretation of the verdicts of the stock matchers, read off the summary of match(): with the judged sample (for
the equality matcher also the reference sample) marked NaN and everything else unknown, the condition for a mismatch must
come out true; a running maximum must take up a NaN, keep it whatever follows (through every level of the loops), and the
condition on the result must then fail. Comparisons with NaN are false, and arithmetic on NaN is NaN, so the way a condition is
written (a > b or not a <= b) is what decides."""
from .common import *
from .scan import *

def check(ctx):
    for q in ('hart::EqualsTo', 'hart::PeaksBelow', 'hart::PeaksAt'): ctx.guard('not a number', q, one, ctx, q)

def one(ctx, q):
    s = matchrun(ctx, q); f = ctx.method(ctx.rec(q), 'match', 1)
    if s.ret == TRUE: ctx.bad('not a number', f, '%s always passes' % q); return
    res = []                    # per part: [(what, holds?, why)]
    for p in parts(s.ret): res.append(part(ctx, q, s, p))
    whats = [w for w, h, y in res[0] or []] if len(res) == 1 else sorted({w for r in res if r for w, h, y in r})
    if not whats: ctx.unk('not a number', f, '%s: form of the verdict: %s' % (q, clip(show(s.ret)))); return
    if len(res) == 1:
        for w, h, y in res[0]: ctx.must('not a number', f, h, '%s: %s%s' % (q, w, y))
    else:
        # one part that catches it suffices
        ok = [r for r in res if r and all(h is True for w, h, y in r)]
        allbad = all(r and any(h is False for w, h, y in r) for r in res)
        ctx.must('not a number', f, True if ok else False if allbad else None, '%s: %s' % (q, 'a NaN makes one part of the verdict negative'))

def part(ctx, q, s, ret):
    v = verdict(s, ret); out = []
    if v is None or v[0] == 'other': return None
    if v[0] == 'all':
        if q == 'hart::EqualsTo': cases_ = [('a judged sample that is NaN is a mismatch', True, False), ('a reference sample that is NaN is a mismatch', False, True), ('a mismatch when both samples are NaN', True, True)]
        else: cases_ = [('a judged sample that is NaN is a mismatch', True, True)]
        for what, o, r in cases_:
            rs = []
            for loops, body in v[1]:
                sm = {x for x in subterms(body) if x[0] == 'sel' and not x[1][0] == 'in' or x[0] == 'sel' and x[1] == SOBS}
                n = Nan({x for x in sm if (o if x[1] == SOBS else r)})
                for x in sm - n.nans: n.memo[x] = 'num'
                rs.append((n.b(body), body))
            h = True if any(x is True for x, b in rs) else False if all(x is False for x, b in rs) else None
            out.append((what, h, '' if h else ': ' + clip(show(rs[0][1]))))
        return out
    leaf, fold, h = v[1:]
    if not getattr(fold, 'order', True): return [('order of the operands of the maximum', None, '')]
    for L in fold.loops():
        if s.loops[L].exitcond != FALSE: return [('a loop is left early', None, '')]
    for i, (L, init, st) in enumerate(fold.levels):
        if st is None: continue
        last = i == len(fold.levels) - 1
        leaf_ = {x for x in subterms(st) if x[0] == 'sel' and x[1] == SOBS} if last else {X}
        if not leaf_: return [('what the maximum is taken of', None, '')]
        def tri(nans, num_, what):
            n = Nan(nans)
            for y in num_: n.memo[y] = 'num'
            r = n.v(st); out.append((what, True if r == 'nan' else False if r == 'num' else None, ' (%s)' % clip(show(st), 120)))
        tri(leaf_, {ACC}, '%s that is NaN is taken up by the running maximum' % ('a sample' if last else 'the maximum of an inner loop'))
        tri({ACC}, leaf_, 'a NaN in the running maximum stays')
        tri({ACC} | leaf_, (), 'a NaN in the running maximum stays when another one follows')
    r = Nan({ACC}).b(h)
    out.append(('a NaN as the largest value is a mismatch', True if r is False else False if r is True else None, ' (%s)' % clip(show(h), 120)))
    return out
