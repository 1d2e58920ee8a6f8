"""From each option to what it governs, over summaries. (options) in the program's main body every documented option is added once,
unconditionally and before the command line is parsed, and bound to a field of the configuration; the fields are distinct, each
documented getter gives exactly the field of its option, and nothing changes a field after parsing. (decimals) each precision
manipulator leaves the stream in fixed notation with the decimal places of its own unit's field. (seed) noise made without a seed
holds the seed option's field, and what shuffling draws from is made of it. (tasks) the kind of tasks run is selected by the generators
option alone and the list is permuted exactly under the shuffle option (C02's analysis of the runner). (paths) the path resolver is
proved: absolute paths unchanged, all others put below the data root; every path the library opens has passed it exactly once."""
import re
from .common import *
from .host import *
from . import c02, c08

GETTERS = [('--data-root-path', 'getDataRootPath'), ('--seed', 'getRandomSeed'), ('--lin-decimals', 'getLinDecimals'), ('--db-decimals', 'getDbDecimals'), ('--sec-decimals', 'getSecDecimals'), ('--hz-decimals', 'getHzDecimals'), ('--rad-decimals', 'getRadDecimals'), ('--run-generators', 'shouldRunGenerators'), ('--shuffle', 'shouldShuffleTasks')]
ALIAS = {'-d': '--data-root-path', '-s': '--seed', '-g': '--run-generators'}
MANIP = [('linPrecision', '--lin-decimals'), ('dbPrecision', '--db-decimals'), ('secPrecision', '--sec-decimals'), ('hzPrecision', '--hz-decimals'), ('radPrecision', '--rad-decimals')]
HARMLESS = {'default_val', 'default_str', 'capture_default_str', 'always_capture_default', 'description', 'group', 'type_name', 'option_text', 'run_callback_for_default'}

def check(ctx):
    info = {}
    ctx.guard('options', 'command line', options, ctx, info)
    ctx.guard('decimals', 'precision manipulators', decimals, ctx, info)
    ctx.guard('seed', 'noise', noise, ctx, info)
    ctx.guard('seed', 'shuffling', c08.shuffling, ctx)
    ctx.guard('tasks', 'runner', tasks, ctx)
    ctx.guard('paths', 'resolving', resolver, ctx, info)
    ctx.guard('paths', 'use', pathuse, ctx, info)

# ---------------------------------------------------------------- options
def options(ctx, info):
    s = runner(ctx); adds = []
    ps = [e for e in s.log if e.kind == 'call' and e.n == 'parse' and e.q.startswith('CLI::App') and e.pc != FALSE]
    if not ps: raise Missing('parsing of the command line')
    for e in s.log:
        if e.kind != 'call' or e.pc == FALSE or not e.q.startswith('CLI::'): continue
        if e.n in ('add_option', 'add_flag', 'add_option_no_stream'):
            if len(e.args) < 2 or e.args[0][0] != 'str': ctx.unk('options', e, 'option with a computed name'); continue
            adds.append((e, [x for x in re.split(r'[,\s]+', e.args[0][1]) if x], e.args[1][1] if e.args[1][0] in ('in', 'loc') else None))
        elif e.n.startswith('add_') or e.n in ('set_config', 'allow_config_extras', 'remove_option'): ctx.unk('options', e, '%s is not modelled' % e.q)
    fields = {}
    for flag, getter in GETTERS:
        es = [(e, names, loc) for e, names, loc in adds if any(re.sub(r'^!|\{.*', '', n) == flag for n in names)]
        if not es: ctx.bad('options', ps[0], 'there is no option %s' % flag) if adds else ctx.unk('options', ps[0], 'options not found'); continue
        if len(es) > 1: ctx.bad('options', es[1][0], 'the option %s is added twice' % flag); continue
        e, names, loc = es[0]
        if any(n.startswith('!') or '{' in n for n in names): ctx.unk('options', e, '%s: value given in the option name' % flag)
        if e.pc != TRUE or e.seq > ps[0].seq or e.loops: (ctx.bad if not any(y[0] in sem.OPAQUE for y in [e.pc] + list(subterms(e.pc))) and not e.loops else ctx.unk)('options', e, 'the option %s is added %s' % (flag, 'only after parsing' if e.pc == TRUE else 'only when %s' % clip(show(e.pc)))); continue
        if loc is None: ctx.unk('options', e, 'what the option %s is bound to' % flag); continue
        kind = 'flag' if e.n == 'add_flag' else 'value'
        wanted = 'flag' if flag in ('--run-generators', '--shuffle') else 'value'
        if kind != wanted: ctx.bad('options', e, '%s is a %s' % (flag, 'flag without a value' if kind == 'flag' else 'option that takes a value'))
        for a, f2 in ALIAS.items():
            if a in names and f2 != flag: ctx.bad('options', e, '%s is documented to be short for %s' % (a, f2))
        other = [x for x in fields if fields[x] == loc]
        if other: ctx.bad('options', e, '%s and %s set the same variable' % (flag, other[0])); continue
        fields[flag] = loc
        odd = [x for x in s.log if x.kind == 'call' and x.q.startswith('CLI::Option') and getattr(x, 'this', None) and x.this[0] == ('deref', ('ev', e.id, e.n)) and x.n not in HARMLESS]
        if odd: ctx.unk('options', odd[0], '%s: %s is not modelled' % (flag, odd[0].q))
        got(ctx, flag, getter, loc, e)
    for e, names, loc in adds:
        other = [f for f in fields if fields[f] == loc]
        if loc is not None and other and not any(re.sub(r'^!|\{.*', '', n) == other[0] for n in names): ctx.bad('options', e, 'the option %s sets what %s sets' % (names[0], other[0]))
    p = ps[0]
    ok = len(ps) == 1 and len(p.args) == 2 and p.args == (('in', P('argc')), ('in', P('argv'))) or len(ps) == 1 and list(p.args) == [('in', P('argc')), ('in', P('argv'))]
    ctx.must('options', p, True if ok and p.pc == TRUE else None, 'the whole command line is parsed, once')
    # nothing else changes them
    late = []
    for e in s.log:
        if e.kind == 'write' and e.seq > p.seq and e.pc != FALSE:
            for flag, loc in fields.items():
                if e.loc[:len(loc)] == loc: late.append((e, flag))
    for e, flag in late: (ctx.bad if not any(y[0] in sem.OPAQUE for y in [e.pc] + list(subterms(e.pc))) else ctx.unk)('options', e, 'what %s sets is changed after the command line was parsed' % flag)
    if not late: ctx.ok('options', p, 'nothing changes the %d settings after parsing' % len(fields))
    info.update(fields)
    # other functions that write to them
    r = ctx.rec('hart::CLIConfig')
    for m in ctx.methods(r):
        if m.get('body') is None or m.get('kind') in ('ctor', 'dtor') or m['n'] == 'initCommandLineArgs': continue
        w = []
        walk(m['body'], lambda x: w.append(x) if x.get('k') in ('assign', 'compound') or x.get('k') in ('bin',) and str(x.get('op', '')).endswith('=') and x.get('op') not in ('==', '!=', '<=', '>=') else None)
        if w: ctx.unk('options', m, '%s may change a setting' % m['q'])

def got(ctx, flag, getter, loc, e):
    r = ctx.rec('hart::CLIConfig'); m = ctx.method(r, getter, 0); s = ctx.run(m, r, [], narrow=True)
    want = ('in', ('this',) + tuple(loc[1:]))
    v = s.ret
    if v is not None and v[0] == 'loc': v = ('in', v[1])
    if v == want: ctx.ok('options', m, '%s() gives what %s sets' % (getter, flag)); return
    leaves = [y for y in [v] + list(subterms(v)) if y[0] == 'in'] if v else []
    if v is not None and v[0] == 'narrow' and v[1] == want and v[2] >= 32: ctx.unk('options', m, '%s() gives %s' % (getter, show(v)))
    elif v is not None and v[0] == 'narrow' and v[1] == want: ctx.bad('options', m, '%s() gives only the lowest %s bits of what %s sets' % (getter, v[2], flag))
    elif v is not None and not any(y[0] in sem.OPAQUE for y in [v] + list(subterms(v))) and v[0] not in ('obj',):
        if want in leaves and 'str' not in repr(v): ctx.same('options', m, v, want, what='%s() gives what %s sets' % (getter, flag))
        else: ctx.bad('options', m, '%s() gives %s, not what %s sets' % (getter, clip(show(v)), flag))
    else: ctx.unk('options', m, '%s() gives %s' % (getter, show(v) if v else '?'))

def decimals(ctx, info):
    for name, flag in MANIP:
        loc = info.get(flag)
        if loc is None: continue
        f = ctx.func('hart::' + name); s = ctx.run(f, None, [P('stream')])
        fixed = prec = None; odd = []
        for e in sorted((e for e in s.log if e.kind in ('out', 'call', 'throw')), key=lambda e: e.seq):
            if e.kind == 'out' and e.stream == P('stream') and e.pc == TRUE and not e.loops:
                v = e.val
                if v[0] == 'fn' and v[2] == 'std::fixed': fixed = True
                elif v[0] == 'fn' and v[2] in ('std::scientific', 'std::hexfloat', 'std::defaultfloat'): fixed = v[2]
                elif v[0] == 'uf' and v[1] == 'setprecision': prec = v[2]
                elif v[0] == 'fn' and v[2].startswith('std::'): pass
                else: odd.append(e)
            elif e.kind == 'call' and e.n == 'precision' and e.args and e.pc == TRUE: prec = e.args[0]
            elif e.kind == 'call' and e.n in ('setf', 'unsetf', 'flags', 'width', 'fill'):
                odd.append(e)
            elif e.kind == 'out' and e.pc != FALSE: odd.append(e)
        for e in odd: ctx.unk('decimals', e, '%s: %s' % (name, show(e.val) if e.kind == 'out' else e.q))
        if odd: continue
        if prec is not None and prec[0] == 'in' and prec[1] == loc: ctx.ok('decimals', f, '%s uses the decimal places set by %s' % (name, flag))
        elif prec is None: ctx.bad('decimals', f, '%s does not set the number of decimal places' % name)
        elif any(y[0] in sem.OPAQUE for y in [prec] + list(subterms(prec))): ctx.unk('decimals', f, '%s uses %s' % (name, show(prec)))
        elif ('in', loc) in [prec] + list(subterms(prec)): ctx.same('decimals', f, prec, ('in', loc), what='%s uses the decimal places set by %s' % (name, flag))
        else: ctx.bad('decimals', f, '%s uses %s, not what %s sets' % (name, show(prec), flag))
        ctx.must('decimals', f, fixed is True, '%s leaves the stream in fixed notation' % name)
        r = s.ret
        ctx.must('decimals', f, True if r is not None and r[0] == 'loc' and r[1] == P('stream') else None, '%s gives back the stream' % name)

# ---------------------------------------------------------------- seed, tasks
def noise(ctx, info):
    loc = info.get('--seed')
    if loc is None: raise Missing('the seed option')
    n = 0
    for f in [g for g in ctx.prog.fns.values() if g['q'] == 'vdrv::defaultNoise']:
        s = ctx.run(f, None, [], narrow=True)
        if s.st is None or s.st.store is None: continue
        n += 1
        got = [(k, v) for k, v in s.st.store.items() if isinstance(k[0], tuple) and k[0][-1] == 'noise'] if hasattr(s.st.store, 'items') else []
        vals = [y for k, v in got for y in [v] + list(subterms(v))]
        if ('in', loc) in [v for k, v in got]: ctx.ok('seed', f, 'noise made without a seed uses the random seed of the command line')
        elif ('in', loc) in vals: ctx.unk('seed', f, 'noise made without a seed holds the seed option only inside an expression')
        elif got and not any(y[0] in sem.OPAQUE for y in vals): ctx.bad('seed', ctx.rec('hart::WhiteNoise'), 'noise made without a seed does not use the random seed of the command line')
        else: ctx.unk('seed', f, 'noise made without a seed')
    if not n: raise Missing('noise')

def tasks(ctx):
    """C02's analysis of the runner, on what concerns the two options"""
    o, b, u = len(ctx.ok_), len(ctx.bad_), len(ctx.unk_)
    fs, ss = {}, []
    for cat in ('test', 'generate'):
        f, s, ps, args = c02.addinfo(ctx, cat)
        if not ps or ps[0].vec[0] == 'lite': raise Missing('the list of kind ' + cat)
        name, fn = ('in', P('a0')), ('in', P('a3'))
        vals = {w.loc[-1]: w.val for w in s.log if w.kind == 'write' and w.loc[:len(ps[0].el)] == ps[0].el}
        fs[cat] = (ps[0].vec, next((k for k, x in vals.items() if x == fn), None))
    c02.run_(ctx, fs['test'][0], fs['generate'][0], fs['test'][1], fs['generate'][1])
    words = ('of the other kind', 'is run', 'no loop runs', 'shuffled', 'permuted', 'executes')
    for l, start in ((ctx.ok_, o), (ctx.bad_, b), (ctx.unk_, u)):
        mine = [x for x in l[start:] if any(w in x[2] for w in words) and x[0] in ('selection', 'shuffle')]
        l[start:] = [('tasks',) + tuple(x[1:]) for x in mine]

# ---------------------------------------------------------------- paths
def resolve(ctx):
    f = ctx.func('hart::toAbsolutePath'); s = ctx.run(f, None, [P('path')]); return f, s.ret

def resolver(ctx, info):
    root = info.get('--data-root-path')
    if root is None: raise Missing('the data root option')
    f, v = resolve(ctx)
    path = ('in', P('path')); first = ('uf', 'charat', path, ZERO)
    some = not_(('empty', path)); isabs = lambda c: eq(first, ('int', c))
    if v is None: raise Missing('what the resolver gives')
    below = {('cat', ('in', root), ('str', '/'), path), ('cat', ('cat', ('in', root), ('str', '/')), path)}
    cases = [('a path that begins with /', [some, isabs(47), not_(isabs(92))], {path}), ('a path that begins with a backslash', [some, isabs(92), not_(isabs(47))], {path}),
             ('a relative path', [some, not_(isabs(47)), not_(isabs(92))], below), ('an empty path', [('empty', path)], below)]
    for what, facts, want in cases:
        x = Facts(facts).simp(v)
        if x not in want:
            w = refuted(ctx, v, path if path in want else ('cat', ('in', root), ('str', '/'), path), path, root, and_(*facts))
            if w: ctx.bad('paths', f, '%s: %s' % (what, w)); continue
        if x in want: ctx.ok('paths', f, '%s %s' % (what, 'stays as it is' if path in want else 'is put below the data root'))
        elif x[0] == 'ite' or any(y[0] in sem.OPAQUE for y in subterms(x)): ctx.unk('paths', f, '%s becomes %s' % (what, clip(show(x))))
        elif x[0] in ('in', 'str', 'cat') and all(y[0] in ('in', 'str', 'cat', 'this') or not isinstance(y[0], str) or y[0] in ('static', 'P') for y in subterms(x)):
            # one separator too many does not change what a path names
            if what == 'a relative path' and flat(x) and flat(x)[0] == ('in', root) and flat(x)[-1] == path and all(y[0] == 'str' for y in flat(x)[1:-1]) and re.fullmatch('/+(\\./+)*', ''.join(y[1] for y in flat(x)[1:-1])): ctx.ok('paths', f, '%s is put below the data root' % what)
            elif what == 'an empty path': ctx.unk('paths', f, '%s becomes %s' % (what, show(x)))
            else: ctx.bad('paths', f, '%s becomes %s' % (what, clip(show(x))))
        else: ctx.unk('paths', f, '%s becomes %s' % (what, clip(show(x))))

SAMPLES = ['/a.wav', '\\\\a.wav', 'a.wav', 'a/b.wav', '../a.wav', './a.wav', '.a', 'a\\\\b', 'C:x', 'c/', '~/x', ' a', '//a', 'data/a', '-', 'ab:/c', 'x//y', 'aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa/b']
class NoValue(Exception): pass
def evaluate(t, env):
    """value of a term over strings and characters for given leaves"""
    if t in env: return env[t]
    o = t[0]; E = lambda i: evaluate(t[i], env)
    if o in ('str', 'int', 'bool'): return t[1]
    if o == 'ite':
        try: c = E(1)
        except NoValue:
            a, b = E(2), E(3)
            if a == b: return a
            raise
        return E(2) if c else E(3)
    if o in ('and', 'or'):
        no = None
        for x in t[1:]:
            try:
                if bool(evaluate(x, env)) == (o == 'or'): return o == 'or'
            except NoValue as e: no = e
        if no: raise no
        return o == 'and'
    if o == 'not': return not E(1)
    if o == 'eq': return E(1) == E(2)
    if o == 'lt': return E(1) < E(2)
    if o == 'le': return E(1) <= E(2)
    if o == 'add': return sum(evaluate(x, env) for x in t[1:])
    if o == 'empty': return E(1) == ''
    if o == 'cat': return ''.join(x if isinstance(x, str) else chr(x) for x in (evaluate(y, env) for y in t[1:]))
    if o in ('len', 'strlen'): return len(E(1))
    if o == 'uf' and t[1] == 'charat':
        a, i = E(2), E(3)
        if not 0 <= i < len(a): raise NoValue(t)
        return ord(a[i])
    if o == 'uf' and t[1] in ('str.find', 'str.rfind', 'str.find_first_of') and len(t) == 5:
        a, b, i = E(2), E(3), E(4); b = chr(b) if isinstance(b, int) else b
        if t[1] == 'str.find': r = a.find(b, i)
        elif t[1] == 'str.rfind': r = a.rfind(b, 0, min(i + len(b), len(a)))
        else: r = next((k for k in range(i, len(a)) if a[k] in b), -1)
        return r if r >= 0 else (1 << 64) - 1
    if o == 'uf' and t[1] == 'str.compare' and len(t) in (4, 6):
        a, b = (E(2), E(3)) if len(t) == 4 else (E(2)[E(3):E(3) + E(4)], E(5))
        return (a > b) - (a < b)
    if o == 'uf' and t[1] == 'str.back' and E(2): return ord(E(2)[-1])
    if o == 'uf' and t[1] in ('str.find_last_of', 'str.find_first_not_of') and len(t) == 5 and t[4][0] == 'int':
        a, b = E(2), E(3); b = chr(b) if isinstance(b, int) else b
        ks = [k for k in range(len(a)) if (a[k] in b) == (t[1] == 'str.find_last_of')]
        return (ks[-1] if 'last' in t[1] else ks[0]) if ks else (1 << 64) - 1
    if o == 'uf' and t[1] == 'str.substr' and len(t) == 5: a, i, n = E(2), E(3), E(4); return a[i:i + n]
    raise NoValue(t)

def refuted(ctx, v, want, p, root, pc=TRUE):
    """a sample path for which the term is certainly not what it should be"""
    for x in SAMPLES:
        for r in ('.', 'data', '/d'):
            env = {p: x, ('in', root): r}
            try:
                if not evaluate(pc, env): continue
                a = evaluate(v, env); b = evaluate(want, env)
            except (NoValue, TypeError): continue
            clean = lambda z: re.sub(r'/(\./)*/*', '/', z)
            if a != b and clean(a) != clean(b): return "'%s' (data root '%s') becomes '%s'" % (x, r, a)
    return None

def flat(x):
    if x[0] == 'cat': return [z for y in x[1:] for z in flat(y)]
    return [x]

def pathuse(ctx, info):
    root = info.get('--data-root-path')
    if root is None: raise Missing('the data root option')
    f, v = resolve(ctx)
    if v is None: raise Missing('what the resolver gives')
    def resolved(t, p):
        F = Facts([not_(('empty', base(p)))])
        return F.simp(t) == F.simp(subst(v, {('in', P('path')): p}))
    def base(p):
        return p if p[0] == 'in' else next((y for y in subterms(p) if y[0] == 'in' and y[1][0][0] == 'P'), p)
    def judge(e, t, p, what):
        if resolved(t, p): ctx.ok('paths', e, '%s: the path is resolved once' % what)
        elif t == p: ctx.bad('paths', e, '%s: a relative path is not resolved against the data root' % what)
        elif p is not None and refuted(ctx, t, subst(v, {('in', P('path')): p}), base(p), root): ctx.bad('paths', e, '%s: %s' % (what, refuted(ctx, t, subst(v, {('in', P('path')): p}), base(p), root)))
        elif any(y[0] in sem.OPAQUE for y in [t] + list(subterms(t))): ctx.unk('paths', e, '%s: the path is %s' % (what, clip(show(t))))
        elif resolved(t, subst(v, {('in', P('path')): p})): ctx.bad('paths', e, '%s: the path is resolved twice' % what)
        else: ctx.unk('paths', e, '%s: the path is %s' % (what, clip(show(t))))
    r = ctx.rec('hart::WavFile'); n = 0
    for c in ctx.ctors(r):
        if ctx.iscopy(r, c) or c.get('deleted'): continue
        s = ctx.run(c, r)
        ps = [p['n'] for p in c['params'] if 'string' in ctx.prog.strip(p['t'])['s']]
        for e in s.log:
            if e.kind == 'call' and e.q.startswith('drwav_open_file'):
                n += 1; judge(e, e.args[0], ('in', P(ps[0])) if ps else None, 'the wav file signal')
    if not n: raise Missing('reading of the wav file')
    b = ctx.rec('hart::AudioTestBuilder'); held = {}
    for name in ('saveOutputTo', 'savePlotTo'):
        for m in ctx.methods(b, name):
            args = []; p = None
            for q in m['params']:
                if 'string' in ctx.prog.strip(q['t'])['s']: p = ('in', P(q['n'])); args.append(P(q['n']))
                else: args.append(('in', P(q['n'])))
            s = ctx.run(m, b, args)
            ws = [e for e in s.log if e.kind == 'write' and mentions(e.val, lambda y: y == p) and e.pc != FALSE]
            if len(ws) != 1: ctx.unk('paths', m, '%s: %d places keep the path' % (name, len(ws))); continue
            held[ws[0].loc] = (name, ws[0], p)
    s = ctx.run(ctx.method(b, 'process', 0), b, [])
    used = {}
    for e in s.log:
        if e.pc == FALSE: continue
        t = e.args[0] if e.kind == 'open' and e.args else (e.args[0] if e.kind == 'call' and e.q == 'signalsmith::plot::Figure::write' else None)
        if t is None: continue
        fs = [('in', y) for y in held if mentions(t, lambda z: z == ('in', y))]
        if len(fs) != 1: ctx.unk('paths', e, 'a file is opened under the name %s' % clip(show(t))); continue
        name, w, p = held[fs[0][1]]; used[name] = 1
        # what was stored, resolved or not, and what is opened
        judge(e, subst(Facts([e.pc]).simp(t), {fs[0]: w.val}), p, 'the file asked for by %s' % name)
    for name, w, p in held.values():
        if name not in used: ctx.unk('paths', w, '%s: no file is opened under the stored name' % name)
