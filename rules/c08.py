"""Nothing but the inputs and the seed may reach a result. (sources) every call, constructor, cast and printed value in the
library's functions, type-checked, is compared with the clock, entropy, environment, thread, process-id and address sources of
the C and C++ libraries. (seed) every random generator in the library is followed from its seed to its draws: as a member it must be
made from what the constructor was given, shuffling must use one made there and then from the --seed option, and no generator is shared or
static. (initialised) after every constructor no scalar member is indeterminate, no member's value depends on an indeterminate one, and
in no summary of a library function does a result, condition, argument or stored value depend on an uninitialised variable.
(hash order) loops over unordered containers may not append to sequences, print, or accumulate in an order-dependent way.
(static) no signal, effect, envelope, matcher or buffer reads state that outlives the run and that library code changes."""
import re
from .c10 import *
from engine.prog import walk

CLOCK = r'(std::|::)?(time|clock|gettimeofday|clock_gettime|timespec_get|localtime|gmtime|ftime|times|getrusage)$|std::chrono::(\w+::)*\w*clock::(now|to_time_t|from_time_t)$'
ENTROPY = r'(std::|::)?(rand|random|drand48|erand48|lrand48|mrand48|rand_r|arc4random\w*|getrandom|getentropy|random_shuffle)$|std::random_device(::.*)?$'
ENV = r'(std::|::)?(getenv|secure_getenv|setlocale|localeconv|getlogin|gethostname|uname|getcwd|sysconf|isatty|tmpnam|tempnam|mkstemp|tmpfile)$|std::filesystem::(temp_directory_path|last_write_time|directory_iterator.*)$'
THREAD = r'(std::|::)?(getpid|getppid|gettid|pthread_self|pthread_create|sched_getcpu)$|std::this_thread::get_id$|std::thread::(thread|get_id|hardware_concurrency)$|std::async$|std::jthread::.*'
SOURCES = [('the clock', CLOCK), ('an entropy source', ENTROPY), ('the environment', ENV), ('threads or process ids', THREAD)]
ENGINE = re.compile(r'std::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|shuffle_order_engine|independent_bits_engine)')

def library(ctx):
    for f in ctx.prog.fns.values():
        if f['file'].startswith(ctx.repo + '/include/'): yield f

def summaries(ctx):
    """one summary per library function (and class instance)"""
    c = getattr(ctx, '_c08', None)
    if c is None:
        c = ctx._c08 = []
        for f in library(ctx):
            if f.get('body') is None: continue
            r = ctx.prog.recs.get(f.get('cls')); r = r if r and 'fields' in r else None
            try: s = ctx.run(f, r, sym(ctx, f, 'p'))
            except Exception as x: c.append((f, r, None, str(x))); continue
            c.append((f, r, s, None))
    return c

def check(ctx):
    ctx.guard('sources', 'library', sources, ctx)
    ctx.guard('sources', 'text', text, ctx)
    ctx.guard('seed', 'members', members, ctx)
    ctx.guard('seed', 'shuffling', shuffling, ctx)
    ctx.guard('seed', 'draws', draws, ctx)
    ctx.guard('initialised', 'members', made_, ctx)
    ctx.guard('initialised', 'variables', variables, ctx)
    ctx.guard('hash order', 'library', hashorder, ctx)
    ctx.guard('static', 'library', statics, ctx)

# ---------------------------------------------------------------- sources
def discarded(n):
    """nodes whose value is thrown away"""
    out = set()
    def v(x):
        if x['k'] == 'expr':
            e = x['e']
            while isinstance(e, dict) and e.get('k') in ('cast', 'paren', 'cleanup') and e.get('e'): e = e['e']
            if isinstance(e, dict): out.add(id(e))
    walk(n, v); return out

def sources(ctx):
    n = 0
    for f in library(ctx):
        parts = [f.get('body')] + [i.get('e') for i in f.get('inits', [])]
        if not any(parts): continue
        n += 1; found = []; dis = set()
        for p in parts:
            if p: dis |= discarded(p)
        def v(x):
            k = x['k']
            if k in ('call', 'ctor', 'ref'):
                q = x.get('q') or (x.get('n') if k == 'ref' and x.get('dk') == 'fn' else None)
                if q:
                    for what, rx in SOURCES:
                        if re.match(rx, q): found.append((x, what, q, id(x) in dis))
                if k == 'call' and x.get('n') == 'operator<<' and any(isptr(ctx, t) for t in x.get('pt', [])[-1:]): found.append((x, 'an address', 'printed', False))
                if k == 'ctor' and x.get('q') == 'std::locale::locale' and x.get('args') and x['args'][0].get('k') not in ('default',): found.append((x, 'the environment', q, False)) if ctx.prog.strip(x['pt'][0])['k'] == 'ptr' else None
            if k == 'cast' and x.get('ck') == 'PointerToIntegral': found.append((x, 'an address', 'converted to a number', False))
        for p in parts:
            if p: walk(p, v)
        for x, what, q, d in found:
            if d: continue
            ctx.bad('sources', (f['file'], x.get('l', f['line'])), '%s uses %s (%s)' % (f['q'], what, q))
        if not found: ctx.ok('sources', f, '%s: inputs and seed only' % f['q'])
    if n < 100: raise Missing('functions of the library')

def isptr(ctx, t):
    s = ctx.prog.ty(t)['s'].replace(' ', '')
    return s in ('constvoid*', 'void*', 'constvolatilevoid*')

def text(ctx):
    import os
    for d, _, fs in os.walk(ctx.repo + '/include'):
        for fn in fs:
            if not fn.endswith(('.hpp', '.h', '.cpp', '.ipp')) or 'dependencies' in d: continue
            p = os.path.join(d, fn); t = open(p, encoding='utf-8', errors='replace').read()
            t = re.sub(r'//[^\n]*|/\*.*?\*/|R"\w*\(.*?\)\w*"|"(\\.|[^"\\\n])*"', lambda m: '\n' * m.group(0).count('\n') or ' ', t, flags=re.S)
            hits = [(t[:m.start()].count('\n') + 1, m.group(0)) for m in re.finditer(r'\b__(DATE|TIME|TIMESTAMP)__\b', t)]
            for l, w in hits: ctx.bad('sources', (p, l), '%s: the time of the build' % w)
            if not hits: ctx.ok('sources', (p, 1), 'no build time in the text')

# ---------------------------------------------------------------- generators
def generators(ctx, r):
    return [fl for fl in r['fields'] if ENGINE.match(fieldtype(ctx, fl)['s']) or re.match(r'std::random_device', fieldtype(ctx, fl)['s'])]

NEW = (('new', 90001, 'object'),)
def built(ctx, r, c):
    e = ctx.engine(); st = State()
    if not base(r): e.dyn[NEW] = r['id']
    st, _ = e.run(c, this=NEW, args=sym(ctx, c, 'p'), st=st)
    return e, st

def members(ctx):
    n = 0
    for r in ctx.prog.recs.values():
        if 'fields' not in r or not r['q'].startswith('hart::'): continue
        for fl in generators(ctx, r):
            n += 1
            if fl.get('static'): ctx.bad('seed', r['q'], '%s::%s is shared by all objects' % (r['q'], fl['n'])); continue
            for c in ctx.ctors(r):
                if ctx.iscopy(r, c) or c.get('deleted') or c.get('body') is None: continue
                e, st = built(ctx, r, c)
                if st is None: continue
                v = e.read(NEW + (fl['n'], '#state'), st); what = '%s: %s is seeded' % (r['q'], fl['n'])
                ys = [v] + list(subterms(v))
                if any(y[0] == 'undef' for y in ys) : ctx.unk('seed', c, '%s with %s' % (what, clip(show(v))))
                elif any(y[0] in ('ev', 'evout') for y in ys): ctx.unk('seed', c, '%s with %s' % (what, clip(show(v))))
                elif any(y[0] == 'in' and isinstance(y[1][0], tuple) and y[1][0][0] in ('static', 'global') and not config(ctx, y[1]) for y in ys): ctx.bad('seed', c, '%s with %s' % (what, clip(show(v))))
                elif c['params'] and not any(y[0] == 'in' and y[1][:1] == P('p0') or y == P('p0') for y in ys): ctx.bad('seed', c, '%s with %s, whatever the seed given' % (what, clip(show(v))))
                else: ctx.ok('seed', c, '%s with %s' % (what, clip(show(v), 80)))
    if not n: raise Missing('random generators')

def config(ctx, loc):
    """a location inside the command line's settings"""
    x = loc[0]; g = ctx.prog.globals.get(x[1])
    return g is not None and ctx.prog.ty(g['t']).get('s', '').replace('struct ', '').startswith('hart::CLIConfig')

def shuffling(ctx):
    from . import host
    n = 0
    for f, r, s, x in summaries(ctx):
        if s is None or s.st is None: continue
        for e in s.log:
            if e.kind != 'call' or e.n not in ('shuffle', 'sample') or e.q not in ('std::shuffle', 'std::sample', 'std::ranges::shuffle') or e.pc == FALSE: continue
            if not (e.file == f['file'] and any(e.line == x for x in lines(f))): continue            # reported where it is written
            n += 1
            l = next((a[1] for a in e.args[::-1] if a[0] == 'loc'), None)
            if l is None: ctx.unk('seed', e, 'the generator passed to %s' % e.q); continue
            if isinstance(l[0], tuple) and l[0][0] in ('static', 'global'): ctx.bad('seed', e, '%s uses a generator that outlives the call (%s)' % (f['q'], showloc(l))); continue
            v = e.store.get(l + ('#state',)) if e.store else None
            if v is not None and v[0] == 'evout' and v[1] == e.id:
                m = [x for x in s.log if x.kind == 'ctor' and x.loc == l and x.seq < e.seq] if hasattr(e, 'seq') else [x for x in s.log if x.kind == 'ctor' and getattr(x, 'loc', None) == l]
                v = ('uf', 'ctor:' + m[-1].q) + tuple(m[-1].args) if m else None
            if v is None: ctx.unk('seed', e, '%s: the generator shuffled with' % f['q']); continue
            ys = [v] + list(subterms(v))
            if any(y[0] in ('ev', 'evout') for y in ys): ctx.unk('seed', e, '%s shuffles with %s' % (f['q'], clip(show(v))))
            elif any(y[0] == 'in' and y[1][-1] == seedfield(ctx) and config(ctx, y[1]) for y in ys if y[0] == 'in' and isinstance(y[1][0], tuple) and y[1][0][0] == 'static'): ctx.ok('seed', e, '%s shuffles with %s' % (f['q'], show(v)))
            elif all(y[0] != 'in' or y[1][:1] != ('this',) for y in ys) and not any(y[0] == 'undef' for y in ys): ctx.bad('seed', e, '%s shuffles with %s, not with the random seed' % (f['q'], clip(show(v))))
            else: ctx.unk('seed', e, '%s shuffles with %s' % (f['q'], clip(show(v))))
    if not n: raise Missing('std::shuffle')

def lines(f):
    out = set()
    walk(f['body'], lambda x: out.add(x.get('l')) and None); return out

def seedfield(ctx):
    f = ctx.func('hart::CLIConfig::getRandomSeed'); s = ctx.run(f, ctx.prog.recs[f['cls']], [])
    if s.ret is None or s.ret[0] != 'in' or s.ret[1][:1] != ('this',): raise Missing('what getRandomSeed() gives')
    return s.ret[1][-1]

def draws(ctx):
    n = 0
    for f, r, s, x in summaries(ctx):
        if s is None or s.st is None: continue
        for e in s.log:
            if e.kind != 'draw' or e.pc == FALSE: continue
            n += 1; g = e.gen
            if isinstance(g[0], tuple) and g[0][0] in ('static', 'global'): ctx.bad('seed', e, '%s draws from a generator that all objects share (%s)' % (f['q'], showloc(g)))
            elif g[0] == 'this' or isinstance(g[0], tuple) and g[0][0] in ('var', 'tmp'): ctx.ok('seed', e, '%s draws from %s' % (f['q'], showloc(g)))
            else: ctx.unk('seed', e, '%s draws from %s' % (f['q'], showloc(g)))
    if not n: raise Missing('draws')

# ---------------------------------------------------------------- initialised
SCALAR = ('int', 'float', 'bool', 'enum', 'ptr')
def made_(ctx):
    n = 0
    for r in ctx.prog.recs.values():
        if 'fields' not in r or not r['q'].startswith('hart::'): continue
        cs = [c for c in ctx.ctors(r) if not ctx.iscopy(r, c) and not c.get('deleted') and c.get('body') is not None]
        for c in cs:
            try: e, st = built(ctx, r, c)
            except Exception as x: ctx.unk('initialised', c, str(x)); continue
            if st is None: continue
            n += 1; un = []; dep = []
            for fl in ctx.prog.all_fields(r):
                if fl.get('static'): continue
                k = fieldtype(ctx, fl)['k']
                if ctx.prog.ty(fl['t'])['k'] in ('ref', 'rref'): continue
                v = e.read(NEW + (fl['n'],), st) if k in SCALAR else None
                if k in SCALAR and v[0] == 'undef': un.append(fl['n'])
                for kk, w in st.store.items():
                    if kk[:2] != NEW + (fl['n'],) or not isinstance(w, tuple) or not w or not isinstance(w[0], str): continue
                    u = Facts().simp(w) if w[0] == 'ite' else w
                    y = next((y for y in [u] + list(subterms(u)) if y[0] == 'undef' and scalar(y)), None)
                    if y is not None and not (k in SCALAR and w == y) and kk[-1] != ('[]',): dep.append((kk, y))
            q = r['q']
            for kk, y in dep: ctx.bad('initialised', c, '%s: %s is computed from %s before that has a value' % (q, showloc(kk[1:]), showloc(y[1])))
            for name in un: ctx.guard('initialised', c, late, ctx, r, c, name)
            if not un and not dep: ctx.ok('initialised', c, '%s: every member has a value' % q)
    if n < 20: raise Missing('constructors')

def scalar(y):
    return len(y) > 1 and isinstance(y[1], tuple) and ('[]',) not in y[1] and not (isinstance(y[1][-1], str) and y[1][-1].startswith('#'))

def late(ctx, r, c, name):
    """a member that has no value after construction: is it read before it gets one?"""
    what = '%s: %s' % (r['q'], name)
    me = NEW + (name,)
    hit = False
    for f in [f for b in lineage(ctx, r) for f in ctx.methods(b)]:
        if f.get('kind') in ('ctor', 'dtor') or f.get('body') is None or f['n'].startswith(('~', 'operator')) or f['n'] in ('copy', 'move'): continue
        e, st = built(ctx, r, c)
        if st is None: continue
        m = len(e.log); st, ret = e.run(f, this=NEW, args=sym(ctx, f, 'q'), st=st)
        for w, t in flows(e, st, ret, m, me):
            if any(y == ('undef', me) for y in [t] + list(subterms(t))): ctx.bad('initialised', f, '%s has no value yet when %s is called: %s' % (what, f['n'], w)); hit = True; break
    if not hit: ctx.ok('initialised', c, '%s gets its value before it is used' % what)

def flows(e, st, ret, m=0, skip=None):
    """(where, term) for everything that comes out of a run"""
    def t(x): return isinstance(x, tuple) and x and isinstance(x[0], str)
    if t(ret): yield 'its result', ret
    for v in e.log[m:]:
        if v.pc == FALSE: continue
        yield 'a condition at line %s' % v.line, v.pc
        F = Facts([v.pc])
        for k in ('val', 'args', 'ret', 'key'):
            x = getattr(v, k, None)
            if v.kind == 'write' and isinstance(v.loc[0], tuple) and v.loc[0][0] in ('var', 'tmp', 'new'): continue
            for y in (x if isinstance(x, (list, tuple)) and not t(x) else [x]):
                if t(y) and any(z[0] == 'undef' for z in [y] + list(subterms(y))): yield '%s at line %s' % (v.kind, v.line), F.simp(y)
    if st is not None:
        F = Facts([st.pc])
        for k, v in st.store.items():
            if k == skip or k[0] == '&' or isinstance(k[0], tuple) and k[0][0] in ('var', 'tmp', 'new') or not t(v): continue
            yield showloc(k), (F.simp(v) if any(z[0] == 'undef' for z in [v] + list(subterms(v))) else v)

def variables(ctx):
    n = 0
    for f, r, s, x in summaries(ctx):
        if s is None: ctx.unk('initialised', f, '%s: %s' % (f['q'], x)); continue
        n += 1
        for w, t in flows(s.e, s.st, s.ret):
            y = next((y for y in [t] + list(subterms(t)) if y[0] == 'undef'), None)
            if y is None: continue
            v = y[1][0]
            if scalar(y) and isinstance(v, tuple) and v[0] == 'var' and reachable(ctx, t, y): ctx.bad('initialised', f, '%s: %s depends on %s, which has no value yet' % (f['q'], w, showloc(y[1])))
            else: ctx.unk('initialised', f, '%s: %s may depend on %s' % (f['q'], w, showloc(y[1])))
            break
        else: ctx.ok('initialised', f, '%s uses no variable before it has a value' % f['q'])
    if n < 100: raise Missing('summaries')

def reachable(ctx, t, y):
    """is there a case in which t is y (or computed from it)?"""
    if t == y: return True
    if t[0] == 'ite':
        if mentions(t[1], lambda z: z == y): return True
        return mentions(t[2], lambda z: z == y) and possible(ctx, t[1]) and reachable(ctx, t[2], y) or mentions(t[3], lambda z: z == y) and possible(ctx, not_(t[1])) and reachable(ctx, t[3], y)
    return any(isinstance(x, tuple) and x and isinstance(x[0], str) and (x == y or mentions(x, lambda z: z == y)) and reachable(ctx, x, y) for x in t[1:])

# ---------------------------------------------------------------- hash order
def hashorder(ctx):
    n = 0
    for f, r, s, x in summaries(ctx):
        if s is None: continue
        for L, lp in s.loops.items():
            if not unordered(ctx, f, lp): continue
            n += 1; what = '%s, loop at line %s' % (f['q'], lp.line); bad = False
            for e in s.log:
                if L not in e.loops or e.pc == FALSE: continue
                l = getattr(e, 'vec', None) or getattr(e, 'loc', None)
                if e.kind == 'push': ctx.bad('hash order', e, '%s: appends to %s in the order of a hash table' % (what, showloc(l))); bad = True
                elif e.kind == 'out': ctx.bad('hash order', e, '%s: prints in the order of a hash table' % what); bad = True
            for k, (a, b) in lp.phis.items():
                if ('[]',) in k or k[-1] == '#size' or bad: continue
                me = ('phi', L, k)
                if isinstance(b, tuple) and b and b[0] in ('+', 'fadd', 'fsub', 'fmul', '-', '*') and me in b and isfloat(b): ctx.bad('hash order', (lp.file, lp.line), '%s: %s is accumulated in the order of a hash table' % (what, showloc(k))); bad = True
                elif b != me and not commutes(b, me) and not local(k, L): ctx.unk('hash order', (lp.file, lp.line), '%s: %s is %s' % (what, showloc(k), clip(show(b), 100))); bad = True
            if not bad: ctx.ok('hash order', (lp.file, lp.line), '%s: each element on its own' % what)
    if not n: ctx.ok('hash order', 'library', 'no loop over an unordered container')

def local(k, L): return isinstance(k[0], tuple) and k[0][0] == 'tmp'
def isfloat(b): return b[0].startswith('f')
def commutes(b, me): return b[0] in ('or', 'and', 'max', 'min', '+') and me in b[1:]

def unordered(ctx, f, lp):
    """does the loop run over an unordered container (by the type in the source at its line)?"""
    hit = []
    def v(x):
        if x['k'] == 'rfor' and x.get('l') == lp.line and 'unordered' in ctx.prog.strip(x['rt'])['s']: hit.append(x)
        if x['k'] == 'for' and x.get('l') == lp.line:
            def w(y):
                if y['k'] == 'call' and y.get('n') in ('begin', 'cbegin') and y.get('this') and 'unordered' in ctx.prog.strip(y['this']['t'])['s']: hit.append(y)
            walk(x.get('init') or {}, w)
    for g in [f] + ([] if not lp.file or lp.file == f['file'] else [h for h in ctx.prog.fns.values() if h['file'] == lp.file]):
        if g.get('body'): walk(g['body'], v)
    if not hit:
        for g in ctx.prog.fns.values():
            if g['file'] == lp.file and g.get('body') and g['line'] <= lp.line: walk(g['body'], v)
            if hit: break
    return bool(hit)

# ---------------------------------------------------------------- state that outlives a run
def statics(ctx):
    writers = {}
    for f, r, s, x in summaries(ctx):
        if s is None or s.st is None: continue
        for k, v in s.st.store.items():
            if isinstance(k[0], tuple) and k[0][0] in ('static', 'global') and v != ('in', k) and k[-1] not in ('#txt', '#init'): writers.setdefault(k[0], set()).add(f['q'])
    rs = {r['id']: r for r in classes(ctx)}
    for q in ('hart::Signal', 'hart::DSP', 'hart::Matcher', 'hart::Envelope', 'hart::AudioBuffer'):
        for r in ctx.prog.recq.get(q, []): rs[r['id']] = r
    n = 0
    for f, r, s, x in summaries(ctx):
        if s is None or s.st is None or f.get('cls') not in rs: continue
        n += 1; hit = None
        for w, t in allterms(s):
            for y in [t] + list(subterms(t)):
                k = y[1] if y[0] == 'in' else y[2] if y[0] in ('phi', 'lo') else None
                if k and isinstance(k[0], tuple) and k[0][0] in ('static', 'global') and k[0] in writers: hit = (w, k); break
            if hit: break
        if hit: ctx.bad('static', f, '%s: %s depends on %s, which %s changes' % (f['q'], hit[0], showloc(hit[1]), sorted(writers[hit[1][0]])[0]))
        else: ctx.ok('static', f, '%s depends on no state that outlives it' % f['q'])
    if n < 50: raise Missing('methods')

def allterms(s):
    def t(x): return isinstance(x, tuple) and x and isinstance(x[0], str)
    if t(s.ret): yield 'its result', s.ret
    for e in s.log:
        if e.pc == FALSE: continue
        yield 'a condition at line %s' % e.line, e.pc
        for k in ('val', 'args', 'ret', 'key'):
            x = getattr(e, k, None)
            for y in (x if isinstance(x, (list, tuple)) and not t(x) else [x]):
                if t(y): yield '%s at line %s' % (e.kind, e.line), y
    for k, v in s.st.store.items():
        if t(v) and not (isinstance(k[0], tuple) and k[0][0] in ('static', 'global')): yield showloc(k) if k[0] != '&' else 'a reference', v
