"""Precision typestate of every stream over the summaries of every library function. Each floating-point value printed has a unit
(rules/units.py); walking back over the stream's events under the value's path condition, the most recent number of decimal places
must be the configuration field set by the unit's own option, in fixed notation, with no other object printing itself in between
(which leaves both arbitrary) and without relying on the state in which the stream was handed over. The label that follows must name
the value's unit. Quantities turned into text by std::to_string, or printed as integers, are reported."""
import re
from .common import *
from .units import *
from .host import *

OPTION = {'lin': '--lin-decimals', 'dB': '--db-decimals', 's': '--sec-decimals', 'Hz': '--hz-decimals', 'rad': '--rad-decimals'}
LABEL = [(r'd[Bb]', 'dB'), (r's|ms|us|sec|seconds?', 's'), (r'[kK]?Hz', 'Hz'), (r'rad|radians?', 'rad'), (r'deg|degrees?', 'deg')]
PREFIX = {'ms': 'milliseconds', 'us': 'microseconds', 'kHz': 'kilohertz', 'KHz': 'kilohertz'}

def check(ctx):
    s = runner(ctx); places = {}
    for u, flag in OPTION.items():
        try:
            a = option(s, flag).args[1]
            if a[0] in ('in', 'loc'): places[tuple(a[1][1:])] = u
        except Missing as x: ctx.unk('precision', 'options', str(x))
    tab, _ = fields(ctx); groups = {}
    for f, r, s, env in runs(ctx):
        if s is None: continue
        ctx.guard('precision', f, function, ctx, f, r, s, env, tab, places, groups)
    for (q, line, what), (e, n) in groups.items(): ctx.ok('precision', e, '%s: %s' % (q, what))

def label(txt):
    m = re.match(r'[ _]*([A-Za-z]+)(?![A-Za-z0-9])', txt)
    if not m: return None
    for p, u in LABEL:
        if re.fullmatch(p, m.group(1)): return m.group(1), u
    return None

def labels(evs, e):
    """the unit label printed right after event e"""
    txt = ''; on = False
    for y in evs:
        if y is e: on = True; continue
        if not on or y.kind != 'out' or y.stream != e.stream: continue
        if y.val[0] != 'str' or y.pc != e.pc or y.loops != e.loops or len(txt) > 12: break
        txt += y.val[1]
    return label(txt)

def function(ctx, f, r, s, env, tab, places, groups):
    u = InClass(ctx, env, tab.get(r['id'], {}) if r else {}, loopmap(s), s.log)
    evs = [e for e in s.log if e.kind in ('out', 'call', 'icall') and e.pc != FALSE]
    seen = set()
    def say(how, e, msg):
        if (e.file, e.line, msg) in seen: return
        seen.add((e.file, e.line, msg)); how('precision', e, '%s: %s' % (f['q'], msg))
    def texts(t, e):
        for y in [t] + list(subterms(t)) if isinstance(t, tuple) else ():
            if y and y[0] == 'uf' and y[1] == 'to_string' and len(y) > 2 and u.unit(y[2]) in OPTION: say(ctx.bad, e, '%s (%s) is turned into text with six decimals by std::to_string' % (clip(show(y[2])), name(u.unit(y[2]))))
    if s.ret is not None: texts(s.ret, f)
    for i, e in enumerate(evs):
        if e.kind != 'out': continue
        texts(e.val, e)
        ty = e.type if isinstance(e.type, str) else ctx.prog.strip(e.type)['s']
        x = u.unit(e.val)
        if ty not in ('float', 'double', 'long double'):
            if getattr(e, 'tkind', '') == 'int' and x in OPTION: say(ctx.bad, e, '%s (%s) is printed as a whole number' % (clip(show(e.val)), name(x)))
            continue
        lb = labels(evs[i:], e)
        if x == 'num' and lb: x = lb[1]
        if x is None or x not in OPTION:
            if isinstance(x, tuple) or known(x): say(ctx.unk, e, '%s is %s' % (clip(show(e.val)), name(x)))
            else: say(ctx.unk, e, 'unit of %s' % clip(show(e.val)))
            if not lb: continue
        n = len(seen)
        if lb and x in OPTION:
            scaled = e.val[0] == 'mul' and isnum(e.val[1])
            if scaled and (lb[0] in PREFIX or lb[1] == 'deg'): say(ctx.unk, e, '%s labelled %s' % (clip(show(e.val)), lb[0]))
            elif lb[0] in PREFIX: say(ctx.bad, e, '%s (%s) is labelled %s' % (clip(show(e.val)), name(x), PREFIX[lb[0]]))
            elif lb[1] != x: say(ctx.bad, e, '%s (%s) is labelled %s' % (clip(show(e.val)), name(x), lb[0]))
        want = x if x in OPTION else lb[1]
        local = e.stream and isinstance(e.stream[0], tuple) and e.stream[0][0] == 'var'
        for kind in ('decimals', 'notation'):
            for k, src, c in sources(ctx, evs, i, kind, e.stream):
                if k == 'entry':
                    if not local and not f.get('mvirt'): continue
                    bad = 'is printed with %s of the stream as it was %s' % ('the decimal places' if kind == 'decimals' else 'the notation', 'created' if local else 'handed over')
                elif k == 'other': bad = 'is printed with %s left by %s at line %d' % ('the decimal places' if kind == 'decimals' else 'the notation', src.q, src.line)
                elif k == 'opaque': say(ctx.unk, e, '%s may change the %s for %s' % (src.q, kind, clip(show(e.val)))); continue
                elif kind == 'notation':
                    if k == 'std::fixed': continue
                    bad = 'is printed in %s notation' % k.split('::')[-1]
                else:
                    v = k[1:] if k[0] == 'in' else None
                    g = places.get(tuple(v[0][1:])) if v else None
                    if g == want: continue
                    if g: bad = 'is printed with the decimal places for %s' % name(g)
                    elif isnum(k) or v: bad = 'is printed with %s decimal places, not with those configured for %s' % (clip(show(k)), name(want))
                    else: say(ctx.unk, e, 'the number of decimal places of %s is %s' % (clip(show(e.val)), clip(show(k)))); continue
                how = ctx.bad if c == e.pc or possible(ctx, c) else ctx.unk
                say(how, e, '%s (%s) %s' % (clip(show(e.val)), name(want), bad))
        if len(seen) == n: groups.setdefault((f['q'], e.line, '%s printed with its decimals%s' % (name(want), ' and label' if lb else '')), (e, 0))

def effect(e, kind, stream):
    """what an event does to the precision ('decimals') or float format ('notation') of a stream"""
    if e.kind == 'out':
        if e.stream != stream: return None
        v = e.val
        if kind == 'decimals' and v[0] == 'uf' and v[1] == 'setprecision': return v[2]
        if kind == 'notation' and v[0] == 'fn' and v[2] in ('std::fixed', 'std::scientific', 'std::hexfloat', 'std::defaultfloat'): return v[2]
        if kind == 'notation' and v[0] == 'uf' and v[1] == 'setf': return 'opaque'
        return None
    if any(a == ('loc', stream) for a in e.args if isinstance(a, tuple)): return 'other' if e.kind == 'icall' else 'opaque'
    if getattr(e, 'this', None) == stream and e.n in ('copyfmt', 'flags', 'unsetf', 'swap', 'operator=', 'move'): return 'opaque'
    return None

def sources(ctx, evs, i, kind, stream):
    """[(effect, event, condition)]: everything that may have set it last when event i prints"""
    v = evs[i]; res = []; rest = v.pc
    def take(e, k, sure):
        nonlocal rest
        c = and_(rest, e.pc)
        if c == FALSE: return False
        fs = Facts([rest])
        g = fs.simp(e.pc)
        if g == FALSE: return False
        res.append((k, e, rest if g == TRUE else c))
        if sure and g == TRUE: return True
        if sure: rest = and_(rest, not_(e.pc))
        return rest == FALSE
    depth = len(v.loops)
    for j in range(i - 1, -2, -1):
        e = evs[j] if j >= 0 else None
        while depth and (e is None or e.loops[:depth] != v.loops[:depth]):
            # leaving the loop: what the previous round left
            for y in reversed(evs[i + 1:]):
                if y.loops[:depth] != v.loops[:depth]: continue
                k = effect(y, kind, stream)
                if k is not None:
                    res.append((k, y, and_(rest, y.pc)))
                    if y.loops == v.loops[:depth] and y.pc == v.pc: break
            depth -= 1
        if e is None: break
        k = effect(e, kind, stream)
        if k is not None and take(e, k, e.loops == v.loops[:len(e.loops)]): return res
    res.append(('entry', None, rest))
    return res
