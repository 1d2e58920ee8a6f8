"""Units of terms. Leaves get theirs from the public interface (by position); fields from what is stored in them; everything
else follows from the arithmetic. A clash is an operation whose operands are both known and cannot go together."""
import math
from .common import *

API = {
 'decibelsToRatio': ['dB'], 'ratioToDecibels': ['lin'], 'wrapPhase': ['rad'],
 'SegmentedEnvelope::hold': ['s'], 'SegmentedEnvelope::rampTo': [None, 's', None], 'SegmentedEnvelope::prepare': ['Hz', 'fr'], 'SegmentedEnvelope::advance': ['s'],
 'plotData': ['lin', 'lin', 'Hz', None], 'AudioBuffer::AudioBuffer': ['ch', 'fr'], 'AudioBuffer::getMagnitude': {3: ['ch', 'fr', 'fr'], 2: ['fr', 'fr']},
 'DSP::prepareWithEnvelopes': ['Hz', 'ch', 'ch', 'fr'], 'DSP::getValues': [None, 'fr', None],
 'GainDb::GainDb': ['dB'], 'GainDb::setValue': [None, 'dB'], 'GainLinear::GainLinear': ['lin'], 'GainLinear::setValue': [None, 'lin'],
 'HardClip::HardClip': ['dB'], 'HardClip::setValue': [None, 'dB'],
 'Signal::prepareWithDSPChain': ['Hz', 'ch', 'fr'], 'Signal::setNumChannels': ['ch'],
 'SineSweep::SineSweep': ['s', 'Hz', 'Hz', None, None, 'rad'], 'SineSweep::withDuration': ['s'], 'SineSweep::withStartFrequency': ['Hz'], 'SineSweep::withEndFrequency': ['Hz'], 'SineSweep::withPhase': ['rad'],
 'SineSweep::frequencyAtFrame': ['fr', None], 'SineSweep::fillWithSilence': [None, 'fr'], 'SineWave::SineWave': ['Hz', 'rad'],
 'EqualsTo::EqualsTo': [None, 'lin'], 'PeaksAt::PeaksAt': ['dB', 'lin'], 'PeaksBelow::PeaksBelow': ['dB', 'lin'], 'EqualsTo::notEqual': ['lin', 'lin'],
 'WavWriter::writeBuffer': [None, None, 'Hz', None],
 'AudioTestBuilder::withSampleRate': ['Hz'], 'AudioTestBuilder::withBlockSize': ['fr'], 'AudioTestBuilder::withDuration': ['s'], 'AudioTestBuilder::withInputChannels': ['ch'], 'AudioTestBuilder::withOutputChannels': ['ch'], 'AudioTestBuilder::withInputSignal': None,
}
ANY = {'supportsSampleRate': ['Hz'], 'supportsNumChannels': ['ch'], 'supportsChannelLayout': ['ch', 'ch']}
def api(ctx, f):
    """units of a function's parameters"""
    q = f['q'][6:] if f['q'].startswith('hart::') else f['q']; n = len(f['params'])
    if f['n'] == 'prepare' and n in (2, 3, 4): return {2: ['Hz', 'fr'], 3: ['Hz', 'ch', 'fr'], 4: ['Hz', 'ch', 'ch', 'fr']}[n]
    if f['n'] in ANY and len(ANY[f['n']]) == n: return ANY[f['n']]
    us = API.get(q)
    if isinstance(us, dict): us = us.get(n)
    return us if us and len(us) == n else [None] * n
RETURNS = {'hart::decibelsToRatio': 'lin', 'hart::ratioToDecibels': 'dB', 'hart::wrapPhase': 'rad', 'hart::AudioBuffer::getMagnitude': 'lin', 'hart::SineSweep::frequencyAtFrame': 'Hz', 'hart::GainDb::getValue': 'dB', 'hart::GainLinear::getValue': 'lin', 'hart::HardClip::getValue': 'dB', 'hart::AudioBuffer::getNumFrames': 'fr', 'hart::AudioBuffer::getNumChannels': 'ch'}
PARAM = {'hart::GainDb': 'dB', 'hart::GainLinear': 'lin', 'hart::HardClip': 'dB'}           # what an envelope's values mean to an effect
CALLS = {'renderNextBlock': None, 'std::sin': ['angle'], 'std::cos': ['angle'], 'std::tan': ['angle'], 'sin': ['angle'], 'cos': ['angle']}
DIM = {'s': 1, 'Hz': -1, 'fr': 0, 'ch': 0, 'rad': 0, 'T0': 0}
NAME = {'dB': 'decibels', 'lin': 'a linear value', 's': 'seconds', 'Hz': 'hertz', 'rad': 'radians', 'fr': 'a number of frames', 'ch': 'a number of channels', 'T0': 'a plain number', 'num': 'a constant'}
def name(u):
    if isinstance(u, tuple) and u[0] == 'dBs': return 'decibels scaled by %.4g' % u[1]
    if isinstance(u, tuple) and u[0] == 'lp': return 'decibels made linear with the factor %.4g instead of 1/20' % (u[1] / 20.)
    if isinstance(u, tuple) and u[0] == 'lq': return 'a product of linear values'
    if isinstance(u, tuple): return 'seconds to the power of %d' % u[1]
    return NAME.get(u, str(u))

def known(u): return u not in (None, 'num')
def fits(a, b):
    """may values of these units stand in for one another"""
    if not known(a) or not known(b) or a == b: return True
    if isinstance(a, tuple) and a[0] == 'lq': return fits('lin', b) if not (isinstance(b, tuple) and b[0] == 'lq') else True
    if isinstance(b, tuple) and b[0] == 'lq': return fits(a, 'lin')
    if a == 'angle' or b == 'angle':
        o = b if a == 'angle' else a
        return o in ('rad', 'T0')
    if 'T0' in (a, b): return (b if a == 'T0' else a) in ('fr', 'ch', 'rad', 'T0', 'lin')
    return False

class Units:
    def __init__(self, ctx, env, field, loops, log=()):
        self.ctx = ctx; self.env = env; self.field = field; self.loops = loops; self.memo = {}; self.clash = []
        self.rendered = {('evout', e.id, i) for e in log if e.kind == 'icall' for i in range(2) if e.n == 'process' or e.n.startswith('renderNextBlock') and len(e.args) == 1}

    def merge(self, us, t, what):
        r = None; none = False
        for u in us:
            if u is None: none = True; continue
            if u == 'num': continue
            if r is None: r = u
            elif not fits(r, u): self.clash.append((what, r, u, t)); return None
            elif r == 'T0': r = u
        if r is None: return None if none else 'num'
        return r

    def unit(self, t):
        if t in self.memo: return self.memo[t]
        self.memo[t] = None
        r = self.memo[t] = self.unit_(t)
        return r

    def unit_(self, t):
        o = t[0]
        if t in self.env: return self.env[t]
        if o in ('int', 'flt'): return 'num'
        if o in ('bool', 'str', 'null', 'addr', 'fn', 'lam', 'new'): return None
        if o == 'in': return self.leaf(t[1])
        if o == 'sel':
            self.index(t[2]); return self.unit(t[1])
        if o == 'add': return self.merge([self.unit(x) for x in t[1:]], t, 'added to')
        if o in ('min', 'max'): return self.merge([self.unit(x) for x in t[1:]], t, 'compared with')
        if o in ('lt', 'le', 'eq', 'feq'):
            self.merge([self.unit(x) for x in t[1:]], t, 'compared with'); return None
        if o == 'ite':
            self.unit(t[1]); a, b = self.unit(t[2]), self.unit(t[3])
            return self.merge([a, b], t, 'chosen instead of')
        if o in ('and', 'or', 'not'):
            for x in t[1:]: self.unit(x)
            return None
        if o in ('abs', 'round', 'trunc', 'f32', 'narrow', 'neg'): return self.unit(t[1])
        if o in ('mul', 'prod'): return self.product([(x, 1) for x in t[1:]], t)
        if o in ('div', 'fdiv'): return self.product([(t[1], 1), (t[2], -1)], t)
        if o in ('idiv', 'ceildiv'): return self.product([(t[1], 1), (t[2], -1)], t)
        if o == 'mod': return self.merge([self.unit(t[1]), self.unit(t[2])], t, 'reduced modulo')
        if o == 'evout': return 'lin' if t in self.rendered else None
        if o in ('phi', 'lo') and isinstance(t[2], tuple) and '#s' in t[2]: return 'lin'
        if o == 'phi' or o == 'lo':
            lp = self.loops.get(t[1]); v = lp.phis.get(t[2]) if lp is not None else None
            if v is None: return None
            a = self.unit(v[0]); self.memo[t] = a
            b = self.unit(v[1])
            return self.merge([a, b], t, 'carried on as')
        if o == 'red':
            return self.merge([self.unit(x) for x in t[3:] if isinstance(x, tuple)], t, 'compared with') if t[1] in ('max', 'min') else None
        if o in ('kap', 'kx', 'kn'): return None
        if o == 'exists' or o == 'forall':
            for x in t[1:]:
                if isinstance(x, tuple) and x and isinstance(x[0], str): self.unit(x)
            return None
        if o in ('store',):
            a = self.unit(t[1]); self.index(t[2]); return self.merge([a, self.unit(t[3])], t, 'stored among')
        if o == 'upd': return self.merge([self.unit(t[1])] + [self.unit(x) for x in t[5:6] if isinstance(x, tuple)], t, 'stored among') if len(t) > 5 else None
        if o == 'uf': return self.call(t)
        for x in t[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('add', 'mul', 'ite', 'sel', 'div', 'uf'): self.unit(x)
        return None

    def index(self, ix):
        for x in ix[1:]:
            u = self.unit(x)
            if known(u) and u not in ('fr', 'ch', 'T0'): self.clash.append(('used as an index', u, None, x))

    def product(self, fs, t):
        us = [(self.unit(x), s, x) for x, s in fs]
        flat = [(u, s, x) for u, s, x in us if u != 'num']
        const = 1.0
        for u, s, x in us:
            if u == 'num' and x[0] in ('int', 'flt'):
                if x[1] == 0 and s < 0: return None
                const *= float(x[1]) if s > 0 else 1.0 / float(x[1])
        if not flat: return 'num'
        dbs = [(u, s, x) for u, s, x in flat if u == 'dB' or isinstance(u, tuple) and u[0] == 'dBs']
        if dbs:
            rest = [y for y in flat if y not in dbs]
            if len(dbs) > 1: 
                if len(dbs) == 2 and dbs[0][1] != dbs[1][1]: return None
                self.clash.append(('multiplied by', dbs[0][0], dbs[1][0], t)); return None
            for u, s, x in rest:
                if u == 'lin' or isinstance(u, tuple) and u[0] in ('lq', 'lp') or known(u) and DIM.get(u, 1) != 0: self.clash.append(('multiplied by' if s > 0 else 'divided by', dbs[0][0], u, t)); return None
            if rest: return None
            u, s, x = dbs[0]
            if s < 0: return None
            k = const * (u[1] if isinstance(u, tuple) else 1.0)
            if abs(abs(k) - 1) < 1e-9: return 'dB'
            return ('dBs', k)
        if len(flat) == 1 and flat[0][1] > 0 : return flat[0][0]
        if any(u is None for u, s, x in flat): return None
        power = lambda u: 1 if u == 'lin' else u[1] if isinstance(u, tuple) and u[0] in ('lp', 'lq') else None
        lins = [(u, s, x) for u, s, x in flat if power(u) is not None]
        d = 0
        for u, s, x in flat:
            if power(u) is not None: continue
            if isinstance(u, tuple): d += s * u[1]
            else: d += s * DIM[u]
        if lins:
            n = sum(s * power(u) for u, s, x in lins)
            if n <= 0 or d != 0: return None
            if abs(n - 1) < 1e-6: return 'lin'
            hard = [y for y in lins if isinstance(y[0], tuple) and y[0][0] == 'lp']
            if not hard: return ('lq', n)
            if len(hard) < len(lins): self.clash.append(('multiplied by', hard[0][0], 'lin', t)); return None
            return ('lp', n)
        return 'T0' if d == 0 else 's' if d == 1 else 'Hz' if d == -1 else ('T', d)

    def scaled(self, u):
        if u == 'dB': return 1.0
        if isinstance(u, tuple) and u[0] == 'dBs': return u[1]
        return None

    def call(self, t):
        n = t[1].split('::')[-1] if isinstance(t[1], str) else ''
        us = [self.unit(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else None for x in t[2:]]
        if n in ('pow', 'powf') and len(us) == 2:
            k = self.scaled(us[1])
            if k is not None:
                if t[2][0] in ('int', 'flt') and t[2][1] > 0:
                    r = math.log10(t[2][1]) * k * 20
                    if abs(r - 1) < 1e-6: return 'lin'
                    return ('lp', r)
                return None
            if us[1] == 'num' and t[3][0] in ('int', 'flt') and t[3][1] > 0 and (us[0] == 'lin' or isinstance(us[0], tuple) and us[0][0] in ('lp', 'lq')):
                h, p = ('lq', 1) if us[0] == 'lin' else us[0]
                p *= float(t[3][1]); return 'lin' if abs(p - 1) < 1e-6 else (h, p)
            if us[1] == 'lin' and t[2] in (('int', 10), ('flt', 10.0)): self.clash.append(('made linear again', 'lin', None, t)); return None
            return None
        if n in ('exp', 'exp2', 'exp10') and us:
            k = self.scaled(us[0])
            if k is not None:
                r = {'exp': math.log10(math.e), 'exp2': math.log10(2), 'exp10': 1.0}[n] * k * 20
                if abs(r - 1) < 1e-6: return 'lin'
                return ('lp', r)
            return None
        if n in ('log10', 'log', 'log2') and us:
            if us[0] == 'dB': self.clash.append(('converted to decibels again', 'dB', None, t)); return None
            p = 1 if us[0] == 'lin' else us[0][1] if isinstance(us[0], tuple) and us[0][0] in ('lp', 'lq') else None
            if p is not None: return ('dBs', p * {'log10': 1 / 20., 'log': math.log(10) / 20, 'log2': math.log2(10) / 20}[n])
            return None
        if n in ('sqrt', 'cbrt') and us and isinstance(us[0], tuple) and us[0][0] in ('lp', 'lq'):
            p = us[0][1] / (2. if n == 'sqrt' else 3.)
            return 'lin' if abs(p - 1) < 1e-6 else (us[0][0], p)
        if n in ('sin', 'cos', 'tan', 'sinf', 'cosf'):
            if us and known(us[0]) and not fits(us[0], 'angle'): self.clash.append(('used as an angle', us[0], None, t))
            return None
        if n in ('fabs', 'abs', 'floor', 'ceil', 'round', 'trunc', 'lround', 'rint', 'nearbyint'): return us[0] if us else None
        if n in ('fmod', 'remainder') and len(us) == 2: return self.merge(us, t, 'reduced modulo')
        if n in ('max', 'min', 'fmax', 'fmin', 'hypot'): return self.merge(us, t, 'compared with')
        return None

    def leaf(self, loc):
        if '#nch' in loc: return 'ch'
        if '#nfr' in loc: return 'fr'
        if any(x == '#s' or isinstance(x, tuple) and x and x[0] == '#s' for x in loc): return 'lin'
        if len(loc) == 2 and loc[0][0] == 'deref' and loc[0][1][:1] == ('ev',) and loc[0][1][2:] == ('getFailureDetails',): return {'frame': 'fr', 'channel': 'ch'}.get(loc[1])
        return self.field.get(key(loc))

def key(loc):
    return tuple(('[]',) if isinstance(x, tuple) and x and x[0] == '[]' else x for x in loc)

def classes(ctx):
    out = []
    for targ in ('double', 'float'):
        for r in ctx.prog.recs.values():
            if 'fields' not in r or not r['q'].startswith('hart::') or r['file'].find('/include/') < 0: continue
            if r.get('targs') and not any(str(a).find(targ) >= 0 for a in [r.get('s', '')]) and r.get('s', '').find('<') >= 0: continue
            if r.get('s', '').find('<') < 0 and targ == 'float': continue
            out.append(r)
    return out

def runs(ctx):
    """summaries of the library's functions with symbolic arguments: (function, class, summary, units of leaves)"""
    c = getattr(ctx, '_units', None)
    if c is not None: return c
    from .c08 import library
    from .c10 import sym
    c = ctx._units = []
    for f in library(ctx):
        if f.get('body') is None or f.get('deleted'): continue
        r = ctx.prog.recs.get(f.get('cls')); r = r if r and 'fields' in r else None
        if f.get('cls') is not None and r is None: continue
        args = sym(ctx, f, 'p')
        try: s = ctx.run(f, r, args)
        except Exception as x: c.append((f, r, None, str(x))); continue
        env = {}
        for a, u, p in zip(args, api(ctx, f), f['params']):
            if u is None: continue
            if a[0] == 'in': env[a] = u
            elif isinstance(a, tuple) and isinstance(a[0], tuple): env[('in', a)] = u
        if f['n'] == 'process' and r is not None:
            for b in [q for q in PARAM if r['q'] == q]:
                p = args[2] if len(args) > 2 else None
                if p is not None: env['envs'] = (p if isinstance(p[0], tuple) else p[1], PARAM[b])
        c.append((f, r, s, env))
    return c

class InClass(Units):
    """units with the parameter's unit for everything read from the envelope buffers"""
    def leaf(self, loc):
        e = self.env.get('envs')
        if e and loc[:len(e[0])] == e[0] and '#size' not in loc: return e[1]
        return Units.leaf(self, loc)

def fields(ctx):
    """{class id: {field: unit}} and the clashing stores"""
    c = getattr(ctx, '_ufields', None)
    if c is not None: return c
    tab = {}; bad = {}
    for rnd in range(4):
        n = sum(len(v) for v in tab.values()); bad = {}
        for f, r, s, env in runs(ctx):
            if s is None or r is None or f['n'].startswith('~'): continue
            fs = tab.setdefault(r['id'], {})
            u = InClass(ctx, env, fs, loopmap(s), s.log)
            for e in s.log:
                if e.kind != 'write' or not e.loc or e.loc[0] != 'this' or '#size' in e.loc or e.pc == FALSE: continue
                if mentions(('t', e.val), lambda y: y[0] == 'in' and isinstance(y[1], tuple) and y[1][:1] == (('P', 'p0'),) and ('in', y[1]) not in env): pass
                x = u.unit(e.val); k = key(e.loc)
                if not known(x): continue
                if k not in fs: fs[k] = x
                elif fs[k] == 'T0' and x in ('fr', 'ch', 'rad'): fs[k] = x
                elif not fits(fs[k], x): bad[(r['q'], k, e.file, e.line)] = (e, fs[k], x)
        # inherited fields are the same in derived classes
        if sum(len(v) for v in tab.values()) == n: break
    ctx._ufields = (tab, bad); return ctx._ufields

def loopmap(s):
    return s.loops if isinstance(s.loops, dict) else {l.L: l for l in s.loops}
