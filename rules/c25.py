"""Every unit suffix is summarised for an arbitrary literal, in its whole-number and its fractional form; the result, over the reals, is
normalised to a multiple of the literal and that factor compared with the SI scale of the suffix (pi/180 for degrees). What is
not a plain multiple is compared for arbitrary values. Narrow integer conversions, integer divisions and single precision on the
way to the result are reported, by the types of the syntax tree; a form the driver cannot call is missing. The named constants
(pi_rad, twoPi_rad, halfPi_rad, inf_dB, oo_dB) are evaluated through the driver."""
import math
from .common import *
from engine.prog import walk

SCALE = {'_s': 1, '_ms': 1e-3, '_us': 1e-6, '_dB': 1, '_Hz': 1, '_kHz': 1e3, '_rad': 1, '_deg': math.pi / 180}
CONST = {'piRad': ('pi_rad', math.pi), 'twoPiRad': ('twoPi_rad', 2 * math.pi), 'halfPiRad': ('halfPi_rad', math.pi / 2), 'infDb': ('inf_dB', math.inf), 'ooDb': ('oo_dB', math.inf)}
V = ('in', P('val'))

def check(ctx):
    forms = {}
    for f in ctx.prog.fns.values():
        if f['n'].startswith('operator""') and len(f['params']) == 1 and f.get('body') is not None: forms.setdefault((f['n'][10:].strip(), ctx.prog.strip(f['params'][0]['t'])['k']), []).append(f)
    for suf, k in SCALE.items():
        for kind, what in (('float', 'fractional'), ('int', 'whole')):
            fs = forms.get((suf, kind), [])
            if not fs:
                e = compile_error('double f() { return %s%s; }' % ('1.5' if kind == 'float' else '1', suf), suf)
                (ctx.bad if e else ctx.unk)('forms', ('include/hart_units.hpp', 0), 'the %s form of %s %s' % (what, suf, 'cannot be used: ' + clip(e) if e else 'was not found')); continue
            for f in fs: ctx.guard('scale', f, one, ctx, f, suf, k, what)
    for n, (name, v) in CONST.items():
        fs = [f for f in ctx.prog.fns.values() if f['q'] == 'vdrv::' + n and f.get('body') is not None]
        if not fs: ctx.unk('constants', ('include/hart_units.hpp', 0), name + ' was not found'); continue
        t = ctx.run(fs[0], None, []).ret
        if not isnum(t): ctx.unk('constants', fs[0], '%s is %s' % (name, clip(show(t)))); continue
        ctx.must('constants', fs[0], close(t[1], v), '%s is %.17g' % (name, v))

def compile_error(text, about):
    """what the compiler says against a line that uses the library, if that is about the given name"""
    import subprocess
    from check import FLAGS
    r = subprocess.run(['clang++', '-fsyntax-only', '-w', '-ferror-limit=20', '-x', 'c++'] + FLAGS + ['-'], input='#include "hart.hpp"\n' + text + '\n', capture_output=True, text=True)
    return next((l for l in r.stderr.splitlines() if l.startswith('<stdin>') and 'error' in l and about in l), None) if r.returncode else None

def close(a, b): return a == b or not math.isinf(b) and not math.isinf(a) and abs(a - b) <= 1e-14 * abs(b)

def factor(t):
    """c where t is c * literal, else None"""
    c = aff(t)
    return c[0] if c and c[1] == 0 else None

def aff(t):
    if t == V: return (1.0, 0.0)
    if isnum(t): return (0.0, float(t[1]))
    if t[0] in ('mul', 'add'):
        r = (0.0, 1.0) if t[0] == 'mul' else (0.0, 0.0)
        for x in t[1:]:
            a = aff(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else affs(t[0], x) if isinstance(x, tuple) else None
            if a is None: return None
            if t[0] == 'add': r = (r[0] + a[0], r[1] + a[1])
            elif r[0] and a[0]: return None
            else: r = (r[0] * a[1] + a[0] * r[1], r[1] * a[1])
        return r
    if t[0] == 'div':
        a, b = aff(t[1]), aff(t[2])
        return (a[0] / b[1], a[1] / b[1]) if a and b and b[0] == 0 and b[1] else None
    return None

def affs(op, xs):
    a = (0.0, 1.0) if op == 'mul' else (0.0, 0.0)
    for x in xs:
        b = aff(x) if isinstance(x, tuple) and x else None
        if b is None: return None
        if op == 'add': a = (a[0] + b[0], a[1] + b[1])
        elif a[0] and b[0]: return None
        else: a = (a[0] * b[1] + b[0] * a[1], a[1] * b[1])
    return a

def one(ctx, f, suf, k, what):
    p = ctx.prog; w = '%s, %s literal' % (suf, what)
    s = ctx.run(f, None, [V], narrow=True)
    t = s.ret
    if any(e.pc != FALSE and e.kind == 'throw' for e in s.log): ctx.unk('scale', f, w + ': may throw'); return
    c = factor(t)
    if c is not None: ctx.must('scale', f, close(c, k), '%s: %s times the number (is %.15g)' % (w, '%.15g' % k, c))
    else: ctx.same('scale', f, t, mul(V, ('flt', float(k))), what='%s: %.15g times the number' % (w, k), special=[(lambda t: t == V, lambda r, t: r.choice([0, 1, 3, 7, 90, 250, 999, 44100, 70000, 5000000000, 123456789012]) + (0 if what == 'whole' else r.choice([0, .25, .7])))])
    low = []
    def v(n):
        ty = p.strip(n['t']) if n.get('t') is not None else {}
        if n['k'] == 'cast' and ty.get('k') == 'float' and ty.get('bits') == 32 and n.get('e', {}).get('k') not in ('float', 'int'): low.append((n, 'passes through single precision'))
        if n['k'] in ('bin', 'asg') and ty.get('k') == 'int' and n.get('op') in ('/', '/=', '%'): low.append((n, 'is divided as a whole number'))
    walk(f['body'], v)
    rt = p.strip(f['rt'])
    if low: ctx.bad('precision', (f['file'], low[0][0].get('l', f['line'])), '%s: %s' % (w, low[0][1]))
    elif rt['k'] != 'float' or rt['bits'] < 64: ctx.bad('precision', f, '%s: the result is of type %s' % (w, rt['s']))
    else: ctx.ok('precision', f, w + ': nothing is rounded to a narrower type than double')
