"""The build without exceptions. For every refusal of the default build (a thrown error that is not a failed internal assertion) the
summary of the same function in the build without exceptions prints it, changes nothing of its object before, and after it nothing
happens: the path condition of everything later in the function contradicts the refusal's. The conditions under which a signal is
refused inside process() and inside a comparison contradict those of every call that renders it. Everything that is dereferenced
and may be nothing - what copy() and move() of effects, signals and matchers give, owning pointers in fields and containers, what
the wav decoder gives - is guarded by its path condition, or by a flag that is only set when it is there, or belongs to a field or
container into which every constructor and every other function puts nothing but objects that are there."""
from .common import *
from .proc import process, OBJ, builder

NULL = ('null',)
REFUSABLE = ('hart::DSP', 'hart::Signal', 'hart::Matcher')
EFFECT = ('write', 'push', 'icall', 'call', 'new', 'open', 'mapinsert', 'mclear', 'merase', 'massign', 'vclear', 'vassign', 'vresize', 'vswap', 'out')

def check(ctx):
    thrown = sites(ctx, 'default')
    old = ctx.use('nothrow')
    try:
        ctx.guard('reported', None, reported, ctx, thrown)
        ctx.guard('signal', 'process', rendered, ctx)
        ctx.guard('signal', 'comparison', compared, ctx)
        ctx.guard('there', None, Pointers(ctx).decide)
    finally: ctx.use(old)

# ---------------------------------------------------------------- refusals
def sites(ctx, cfg):
    """{(function, file, line): {(line, error)}} of the errors raised by the functions themselves"""
    out = {}
    for f in ctx.progs[cfg].fns.values():
        if f.get('body') is None or not f['q'].startswith('hart::'): continue
        def see(x):
            if x.get('k') == 'throw' and x.get('e') is not None: out.setdefault((f['q'], f['file'], f['line']), set()).add(x.get('l'))
        walk(f['body'], see)
    return out

class Refusal:
    def __init__(self, s, i, type):
        e = s.log[i]; self.e = e; self.type = type; self.loops = e.loops; self.stack = e.stack; self.line = e.line
        j = i
        while j < len(s.log) and s.log[j].kind == 'out' and s.log[j].line == e.line and s.log[j].pc == e.pc: j += 1
        self.end = j; self.start = i

def refusals(s):
    out = []
    for i, e in enumerate(s.log):
        if e.kind == 'out' and e.pc != FALSE and e.val[0] == 'str' and e.val[1].startswith(' triggered') and i and s.log[i-1].kind == 'out' and s.log[i-1].val[0] == 'str':
            out.append(Refusal(s, i - 1, s.log[i-1].val[1].split('::')[-1]))
    return [r for r in out if r.type != 'HartAssertException']

CONDS = {}
def cond(e):
    """(not simplified: these are long)"""
    r = CONDS.get(id(e))
    if r is None or r[1] is not e: r = CONDS[id(e)] = (e.pc if not e.asm else ('and', e.pc) + tuple(e.asm), e)
    return r[0]

def lift(s, loops, c, level):
    """the condition, as seen `level` loops deep"""
    for L in reversed(loops[level:]): c = ('exists', L, c) if c != FALSE else FALSE
    return c

def at(s, e, level):
    """(a consequence of) the condition under which e happens, seen `level` loops deep"""
    if len(e.loops) == level: return cond(e)
    return s.loops[e.loops[level]].pc

def excluded(s, a, b):
    """can a and b not both happen?"""
    n = 0
    while n < min(len(a.loops), len(b.loops)) and a.loops[n] == b.loops[n]: n += 1
    res = False
    for k in range(n, -1, -1):
        x = lift(s, a.loops, (a.e if isinstance(a, Refusal) else a).pc, k); y = at(s, b, k)
        if clash(x, y): return True
        k = (id(x), id(y), 'sat'); r = PAIRS.get(k)
        if r is None or r[1] is not x or r[2] is not y: r = PAIRS[k] = (together(x, y), x, y)
        r = r[0]
        if r is False: return True
        if r is None: res = None
    return res

def together(x, y):
    """can both conditions hold? True: yes; False: no; None: not understood"""
    ix = {}; names = []
    def enc(t):
        o = t[0]
        if o == 'bool': return t[1]
        if o == 'not': return ('n', enc(t[1]))
        if o in ('and', 'or'): return (o,) + tuple(enc(z) for z in t[1:])
        if o == 'ite': c = enc(t[1]); return ('or', ('and', c, enc(t[2])), ('and', ('n', c), enc(t[3])))
        if t not in ix: ix[t] = len(names); names.append(t)
        return ix[t]
    def ev(f, m):
        if f is True or f is False: return f
        if isinstance(f, int): return m.get(f)
        if f[0] == 'n':
            v = ev(f[1], m); return None if v is None else not v
        r = f[0] == 'and'; un = False
        for z in f[1:]:
            v = ev(z, m)
            if v is None: un = True
            elif v is not r: return not r
        return None if un else r
    fx, fy = enc(x), enc(y); f = ('and', fx, fy); left = [4000]
    def first(f, m):
        if isinstance(f, bool): return None
        if isinstance(f, int): return None if f in m else f
        for z in f[1:]:
            if ev(z, m) is None:
                r = first(z, m)
                if r is not None: return r
        return None
    def search(m):
        left[0] -= 1
        if left[0] < 0: raise TimeoutError
        v = ev(f, m)
        if v is False: return False
        if v is True: return sem.consistent({names[i]: b for i, b in m.items()}) and iterations({names[i]: b for i, b in m.items()})
        a = first(f, m)
        return any(search({**m, a: b}) for b in (True, False))
    try: sat = search({})
    except TimeoutError: return None
    if not sat: return False
    both = loops(x); both &= loops(y)
    return True if not both or all(pure(t[2]) for t in names if t[0] == 'exists') and all(t[0] == 'exists' or not loops(t) for t in names) else None

def iterations(m):
    """can 'some iteration does' and 'no iteration does' hold as assumed? (different iterations are independent)"""
    for a, v in m.items():
        if a[0] != 'exists' or not v: continue
        no = [not_(b[2]) for b, w in m.items() if b[0] == 'exists' and not w and b[1] == a[1]]
        if no and together(a[2], ('and',) + tuple(no)) is False: return False
    return True

def loops(t):
    """loops the condition summarises"""
    out = set(); seen = set()
    def go(t):
        if not isinstance(t, tuple) or id(t) in seen: return
        seen.add(id(t))
        if len(t) == 3 and t[0] == 'exists': out.add(t[1])
        for z in t: go(z)
    go(t); return out

def units(t):
    if t[0] == 'and': return [u for x in t[1:] for u in units(x)]
    return [t]

SETS = {}
def unitset(t):
    """what a condition says outright, and the opposites of it"""
    r = SETS.get(id(t))
    if r is None or r[2] is not t:
        us = units(t); r = SETS[id(t)] = (frozenset(us), frozenset(u[1] if u[0] == 'not' else ('not', u) for u in us if u[0] not in ('bool', 'or', 'and')), t)
    return r

def bsub(t, m):
    """replaces whole conditions inside a condition"""
    o = t[0]
    if o == 'and':
        out = []
        for x in t[1:]:
            y = bsub(x, m)
            if y == FALSE: return FALSE
            out.append(y)
        return and_(*out)
    if t in m: return m[t]
    if o == 'or': return or_(*[bsub(x, m) for x in t[1:]])
    if o == 'not': return not_(bsub(t[1], m))
    if o == 'ite': return ite(bsub(t[1], m), bsub(t[2], m), bsub(t[3], m))
    return t

PAIRS = {}
def clash(x, y):
    k = (id(x), id(y)); r = PAIRS.get(k)
    if r is None or r[1] is not x or r[2] is not y: r = PAIRS[k] = (clash_(x, y), x, y)
    return r[0]

def clash_(x, y):
    """do the two conditions contradict each other, by what each says outright?"""
    if FALSE in (x, y): return True
    xs, ys = unitset(x), unitset(y)
    if any(n in ys for n in xs[1]): return True
    return False

PAIRS = {}
def clash(x, y):
    k = (id(x), id(y)); r = PAIRS.get(k)
    if r is None or r[1] is not x or r[2] is not y: r = PAIRS[k] = (clash_(x, y), x, y)
    return r[0]

def clash_(x, y):
    """do the two conditions contradict each other, by what each says outright?"""
    if FALSE in (x, y): return True
    xs, ys = unitset(x), unitset(y)
    if any(n in ys for n in xs[1]): return True
    if len(xs[0]) > 60 or len(ys[0]) > 60: return False
    for a, b in ((x, y), (y, x)):
        m = {}
        for u in units(a):
            if u[0] == 'not': m[u[1]] = FALSE
            elif u[0] != 'bool': m[u] = TRUE
        if bsub(b, m) == FALSE: return True
    return False

def local(e):
    l = getattr(e, 'loc', None) or getattr(e, 'vec', None) or getattr(e, 'map', None)
    return bool(l) and isinstance(l[0], tuple) and l[0][0] in ('var', 'tmp')

def reported(ctx, thrown):
    """for every function that refuses: printed, alone"""
    fs = {}
    for f in ctx.prog.fns.values():
        k = (f['q'], f['file'], f['line'])
        if k in thrown and f.get('body') is not None: fs.setdefault(k, []).append(f)
    dflt = {}
    for f in ctx.progs['default'].fns.values():
        if (f['q'], f['file'], f['line']) in thrown and f.get('body') is not None: dflt.setdefault((f['q'], f['file'], f['line']), []).append(f)
    for k in sorted(thrown):
        if k not in fs: ctx.unk('reported', '%s:%s' % (k[1], k[2]), '%s is not there in the build without exceptions' % k[0]); continue
        for f in sorted(fs[k], key=lambda f: f['id']): ctx.guard('reported', f, one, ctx, f, thrown[k], dflt[k])

def roots(ctx, prog, f):
    """objects a method is analysed for"""
    r = prog.recs.get(f.get('cls'))
    return r

def raised(ctx, k):
    """errors the function raises itself in the default build: {line: type}"""
    old = ctx.use('default'); out = {}
    try:
        for f in k:
            s = ctx.run(f, ctx.prog.recs.get(f.get('cls')))
            for e in s.log:
                if e.kind == 'throw' and len(e.stack) == 1 and e.type and e.type.split('::')[-1] not in ('HartAssertException', 'TestAssertException'): out[e.line] = e.type.split('::')[-1]
    finally: ctx.use(old)
    return out

def one(ctx, f, lines, dflt):
    want = raised(ctx, dflt)
    if not want: return
    r = ctx.prog.recs.get(f.get('cls'))
    s = ctx.run(f, r)
    rs = [x for x in refusals(s) if len(x.stack) == 1]
    name = f['q']
    for e in s.log:
        if e.kind == 'throw' and len(e.stack) == 1 and e.pc != FALSE and e.type and e.type.split('::')[-1] not in ('TestAssertException', 'HartAssertException'): ctx.bad('reported', e, '%s throws %s in the build without exceptions' % (name, e.type))
    for l, t in sorted(want.items()):
        here = [x for x in rs if x.line == l and x.type == t]
        if here: ctx.ok('reported', here[0].e, '%s: %s is printed' % (name, t))
        else:
            oth = [x for x in rs if x.line == l]
            p = [e for e in s.log if e.kind in ('call', 'out') and e.line == l]
            (ctx.bad if oth or not p else ctx.unk)('reported', f, '%s: %s (line %s) is %s in the build without exceptions' % (name, t, l, 'reported as ' + oth[0].type if oth else 'not reported'))
    given = ptrfields(ctx)
    ret = s.ret
    for x in rs:
        if not x.e.stream or x.e.stream[0][0] != 'global': ctx.unk('reported', x.e, '%s: where the refusal is printed' % name)
        # nothing afterwards
        done = True
        for e in s.log[x.end:]:
            if e.kind not in EFFECT or e.pc == FALSE or local(e): continue
            if e.kind == 'write' and e.val == NULL and isinstance(e.loc[-1], str) and e.loc[-1] in given and ret is not None and any(v == ('in', e.loc) for v in vals(ret)): continue     # given back
            if e.kind == 'call' and e.q.startswith('std::') and not e.this: continue
            g = excluded(s, x, e)
            if not g:
                (ctx.bad if g is False else ctx.unk)('acted', e, '%s goes on after refusing (%s, line %s): %s' % (name, x.type, x.line, describe(e))); done = False; break
        if done: ctx.ok('acted', x.e, '%s: nothing happens after %s' % (name, x.type))
        # nothing before
        if f.get('kind') == 'ctor' or name in ('hart::AudioTestBuilder::process', 'hart::WavWriter::writeBuffer'): continue
        for e in s.log[:x.start]:
            if e.kind not in EFFECT or e.kind in ('icall', 'call', 'out', 'new', 'open') or e.pc == FALSE or local(e): continue
            l = getattr(e, 'loc', None) or getattr(e, 'vec', None) or getattr(e, 'map', None)
            if not l or l[:1] != ('this',): continue
            if e.kind == 'mapinsert' and not e.over and getattr(e, 'has', None) is not None and clash(x.e.pc, and_(e.pc, not_(e.has))): continue
            g = excluded(s, x, e)
            if not g: (ctx.bad if g is False and not x.loops else ctx.unk)('acted', e, '%s changes its object before it refuses (%s, line %s): %s' % (name, x.type, x.line, describe(e))); break
        else: ctx.ok('acted', x.e, '%s: nothing is changed before %s' % (name, x.type))

def describe(e):
    l = getattr(e, 'loc', None) or getattr(e, 'vec', None) or getattr(e, 'map', None)
    if e.kind in ('icall', 'call'): return 'calls %s' % getattr(e, 'q', e.n)
    if e.kind == 'out': return 'prints'
    return '%s %s' % ({'write': 'sets', 'push': 'adds to'}.get(e.kind, 'changes'), clip(T.showloc(l), 80) if l else '')

def vals(t):
    if t[0] == 'ite': return vals(t[2]) + vals(t[3])
    return [t]

# ---------------------------------------------------------------- refused signals
def rendered(ctx):
    """inside process(): a signal that refused to be prepared is not rendered, and nothing is judged"""
    s = process(ctx); f = ctx.method(builder(ctx), 'process', 0)
    rs = [x for x in refusals(s) if any('hart::Signal' in q for q in x.stack[1:]) and not any('EqualsTo' in q for q in x.stack)]
    if not rs: ctx.unk('signal', f, 'no refusal of the input signal is seen'); return
    use = [e for e in s.log if e.kind == 'icall' and e.n in ('renderNextBlock', 'process', 'match') and e.pc != FALSE]
    if not use: ctx.unk('signal', f, 'no block is processed'); return
    for x in rs:
        for e in use:
            if e.seq < x.e.seq: continue
            g = excluded(s, x, e)
            if not g: (ctx.bad if g is False else ctx.unk)('signal', e, 'process() goes on with an input signal that was refused (%s, line %s): calls %s' % (x.type, x.line, e.q)); break
        else: ctx.ok('signal', x.e, 'process() stops when the input signal is refused (%s)' % x.type)

def compared(ctx):
    r = ctx.rec('hart::EqualsTo'); p = ctx.method(r, 'prepare', 3); m = ctx.method(r, 'match', 1)
    s = ctx.seq(r, [(p, [('in', P('rate')), ('in', P('nch')), ('in', P('bs'))]), (m, [P('audio')])], this=(('P', 'matcher'),))
    rs = [x for x in refusals(s) if any('hart::Signal' in q for q in x.stack)]
    use = [e for e in s.log if e.kind == 'icall' and e.n in ('renderNextBlock', 'process') and e.pc != FALSE]
    if not rs or not use: ctx.unk('signal', m, 'no refusal or no use of the reference signal is seen'); return
    for x in rs:
        for e in use:
            if e.seq < x.e.seq: continue
            g = excluded(s, x, e)
            if not g: (ctx.bad if g is False else ctx.unk)('signal', e, 'a comparison renders a reference signal that was refused (%s, line %s): calls %s' % (x.type, x.line, e.q)); break
        else: ctx.ok('signal', x.e, 'a comparison does not render a refused reference signal (%s)' % x.type)

# ---------------------------------------------------------------- what may be nothing
def isptr(p, t):
    t = p.strip(t)
    return t.get('q') in ('std::unique_ptr', 'std::shared_ptr') or t['s'].startswith(('std::unique_ptr<', 'std::shared_ptr<')) or t['k'] == 'ptr'

def ptrfields(ctx):
    """{field: records} that hold an owning pointer"""
    p = ctx.prog; out = {}
    for r in p.recs.values():
        if not r['q'].startswith('hart::') or r.get('lambda'): continue
        for fl in r.get('fields', []):
            if isptr(p, fl['t']): out.setdefault(fl['n'], []).append(r)
    return out

def containers(ctx):
    """{field: records} that hold a list or map of owning pointers"""
    p = ctx.prog; out = {}
    for r in p.recs.values():
        if not r['q'].startswith('hart::') or r.get('lambda'): continue
        for fl in r.get('fields', []):
            t = p.strip(fl['t'])
            if not isptr(p, fl['t']) and ('unique_ptr<' in t['s'] or 'shared_ptr<' in t['s']): out.setdefault(fl['n'], []).append(r)
    return out

class Pointers:
    def __init__(self, ctx):
        self.ctx = ctx; self.pf = ptrfields(ctx); self.cf = containers(ctx); self.inv = {}; self.sums = []
        for f in sorted(ctx.prog.fns.values(), key=lambda f: (f['q'], f['line'], f['id'])):
            if f.get('body') is None or not f['q'].startswith('hart::') or f.get('deleted'): continue
            r = ctx.prog.recs.get(f.get('cls'))
            try: self.sums.append((f, r, ctx.run(f, r)))
            except Giveup as x: ctx.unk('there', f, 'not understood: %s' % x)
        self.byid = {}
        for f, r, s in self.sums:
            self.byid[id(s)] = {e.id: e for e in s.log if getattr(e, 'id', None) is not None and e.kind in ('icall', 'call')}

    def nullable(self, s, p):
        """what the pointer is: ('field', name) | ('elements', name) | ('value',) | None when it cannot be nothing"""
        if p[0] == 'sel': p0 = p[1]
        else: p0 = p
        if p0[0] in ('phi', 'lo'):
            l = p0[2]
        elif p0[0] == 'in': l = p0[1]
        elif p0[0] == 'ev':
            e = self.byid[id(s)].get(p0[1])
            if e is None: return None
            if e.kind == 'icall' and e.n in ('copy', 'move') and str(e.q).startswith(REFUSABLE): return ('value', e.q)
            if e.kind == 'call' and str(e.q).startswith(('drwav_open', 'fopen', 'malloc')): return ('value', e.q)
            return None
        else: return None
        if not isinstance(l, tuple): return None
        ns = [x for x in l if isinstance(x, str)]
        if l[-1] == ('[]',) and ns and ns[-1] in self.cf: return ('elements', ns[-1])
        if ns and l[-1] == ns[-1] and ns[-1] in self.pf: return ('field', ns[-1])
        return None

    def guarded(self, s, e, p):
        """True when e only happens when p is something"""
        n = eq(p, NULL); cs = [at(s, e, k) for k in range(len(e.loops) + 1)]
        if FALSE in cs or any(n in unitset(c)[1] for c in cs): return True
        return any(subst(c, {n: TRUE}) == FALSE for c in cs)

    def flagged(self, s, e, p):
        """flags that are known to be set"""
        if p[0] != 'in' or len(p[1]) < 2: return []
        obj = p[1][:-1]; out = []
        for r in self.pf.get(p[1][-1], []):
            for fl in r.get('fields', []):
                if self.ctx.prog.strip(fl['t'])['s'] == 'bool':
                    b = ('in', obj + (fl['n'],))
                    if any(b in unitset(at(s, e, k))[0] for k in range(len(e.loops) + 1)): out.append(fl['n'])
        return sorted(set(out))

    def decide(self):
        ctx = self.ctx; n = 0
        for f, r, s in self.sums:
            for e in s.log:
                if e.pc == FALSE: continue
                ps = set()
                for k in ('this', 'loc', 'args', 'vec', 'map', 'val', 'ptr', 'buf'): derefs(getattr(e, k, None), ps)
                for p in ps:
                    w = self.nullable(s, p)
                    if w is None: continue
                    if self.guarded(s, e, p): n += 1; continue
                    what = '%s: %s is used (line %s)' % (f['q'], clip(show(p), 80), e.line)
                    if w[0] == 'value': ctx.bad('there', e, what + ' although %s may have been refused' % w[1]); continue
                    fl = self.flagged(s, e, p) if w[0] == 'field' else []
                    if any(self.flag(x, w[1]) for x in fl): n += 1; continue
                    h, why, where = self.always(w)
                    if h: n += 1
                    else: (ctx.bad if h is False else ctx.unk)('there', where or e, what + ' without a check; ' + why)
        # one obligation for each kind of pointer
        ctx.ok('there', None, '%d uses of pointers that a refused operation may have left empty, in %d functions' % (n, len(self.sums)))
        for k, v in sorted(self.inv.items()):
            if v[0]: ctx.ok('there', None, '%s: %s' % (k, v[1] if k.startswith('flag') else 'never empty, ' + v[1]))

    def nonnull(self, s, v, pc, field):
        """True / False / None"""
        if v is None: return None
        if v[0] == 'ite':
            a = self.nonnull(s, v[2], and_(pc, v[1]), field); b = self.nonnull(s, v[3], and_(pc, not_(v[1])), field)
            return False if a is False or b is False else None if a is None or b is None else True
        if pc == FALSE: return True
        if v == NULL: return False
        if v[0] in ('addr', 'new', 'obj', 'ptr'): return True
        if v[0] in ('ev', 'in', 'sel', 'phi', 'lo'):
            if subst(pc, {eq(v, NULL): TRUE}) == FALSE: return True
            w = self.nullable(s, v)
            if w is None:
                if v[0] == 'in' and isinstance(v[1][0], tuple) and v[1][0][0] == 'P' and len(v[1]) == 1: return True      # given by the user
                if v[0] == 'ev':
                    e = self.byid[id(s)].get(v[1])
                    return True if e is not None and (e.n in ('copy', 'move', 'make_unique', 'make_shared')) else None
                return None
            if w[0] == 'value': return False
            return self.always(w)[0]
        return None

    def always(self, w):
        """does every constructor fill the field, and does nothing else empty it or put in something that may be nothing?"""
        key = '%s %s' % w
        if key in self.inv: return self.inv[key]
        self.inv[key] = (True, 'by induction', None)
        ctx = self.ctx; n = 0; res = None
        for f, r, s in self.sums:
            def no(h, e, why):
                nonlocal res
                if res is None or res[0] is None and h is False: res = (h, why, e)
            if w[0] == 'field' and f.get('kind') == 'ctor' and any(r is not None and x['id'] == r['id'] for x in self.pf[w[1]]):
                v = s.read(('this', w[1])); n += 1
                h = self.nonnull(s, v, s.st.pc if s.st is not None else TRUE, w[1])
                if h is False and ctx.iscopy(r, f) and f['params'] and ctx.prog.ty(f['params'][0]['t'])['k'] == 'rref': h = True
                if not h: no(h, f, '%s() may leave %s empty' % (f['q'], w[1]))
            for e in s.log:
                if e.pc == FALSE: continue
                v = None
                if w[0] == 'field' and e.kind == 'write' and e.loc[-1] == w[1] and not made(e): v = e.val
                elif w[0] == 'elements' and e.kind == 'push' and e.vec and e.vec[-1] == w[1]: v = e.val
                elif w[0] == 'elements' and e.kind == 'write' and len(e.loc) > 1 and w[1] in e.loc and isinstance(e.loc[-1], tuple) and e.loc[-1][0] == '[]': v = e.val
                elif w[0] == 'elements' and e.kind == 'mapinsert' and e.map and e.map[-1] == w[1]: v = e.val
                elif w[0] == 'elements' and e.kind == 'vresize' and e.vec and e.vec[-1] == w[1]: v = NULL
                if v is None: continue
                n += 1
                if local(e): continue
                h = self.nonnull(s, v, cond(e), w[1])
                if not h:
                    for k in range(len(e.loops)):
                        if h is False and v[0] in ('ev', 'in') and subst(at(s, e, k), {eq(v, NULL): TRUE}) == FALSE: h = True
                if not h: no(h, e, '%s (line %s) may put nothing into %s' % (f['q'], e.line, w[1]))
        self.inv[key] = res or (True, '%d places that fill it' % n, None)
        return self.inv[key]

    def flag(self, b, p):
        """is the flag only set when the pointer is there, and the pointer never changed once made?"""
        key = 'flag %s of %s' % (b, p)
        if key in self.inv: return self.inv[key][0]
        good = True
        for f, r, s in self.sums:
            if f.get('kind') == 'ctor' and any(r is not None and x['id'] == r['id'] for x in self.pf[p]):
                v = s.read(('this', b)); q = s.read(('this', p))
                if v != FALSE and subst(v, {eq(q, NULL): TRUE}) != FALSE: good = False
                continue
            for e in s.log:
                if e.kind != 'write' or e.pc == FALSE: continue
                if e.loc[-1] == b:
                    q = ('in', e.loc[:-1] + (p,))
                    if e.val != FALSE and and_(subst(e.val, {eq(q, NULL): TRUE}), subst(cond(e), {eq(q, NULL): TRUE})) != FALSE: good = False
                elif e.loc[-1] == p and not local(e) and not made(e): good = False
        self.inv[key] = (good, 'set only when it is there', None)
        return good

def made(e):
    """in a constructor"""
    q = e.stack[-1].split('::')
    return len(q) > 1 and q[-1] == q[-2]

def derefs(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'deref' and isinstance(x[1], tuple): out.add(x[1])
        for y in x: derefs(y, out)
    elif isinstance(x, list):
        for y in x: derefs(y, out)
