"""process() is summarised as a whole (loops as recurrences). A finite fixpoint over those recurrences tracks which
truth values the code's own failure flags can take together with the history 'some check failed', where a failure is read
off the match calls themselves; in every reachable combination the guard of the wav write (of the plot) must equal: mode is
'always', or mode is 'when fails' and a check failed, and no exception for a failed check may leave before it. Arguments of
the writers are compared by value number: the accumulated output (and input), the sample rate, the stored path and format;
the setters and constructors store path, mode and format as given, 'never' by default. All other file-creating calls in the
library's sources are enumerated and must lie inside the two writers."""
from .common import *
from .proc import *

GF = ('ghost', 'fail')

def check(ctx):
    ctx.guard('settings', 'saveOutputTo/savePlotTo', settings, ctx)
    ctx.guard('writers', 'file-creating calls', writers, ctx)

def mode(ctx, n): return num(enumval(ctx, 'hart::Save::' + n))

def setter(ctx, name, np):
    rec = builder(ctx); f = ctx.method(rec, name, np)
    s = ctx.run(f, rec, [P('path'), ('in', P('mode')), ('in', P('fmt'))][:np])
    return f, s

def settings(ctx):
    rec = builder(ctx); always, whenf, never = (mode(ctx, n) for n in ('always', 'whenFails', 'never'))
    absf = ctx.func('hart::toAbsolutePath'); want = ctx.run(absf, None, [P('path')]).ret
    for name, np, writer in (('saveOutputTo', 3, WRITERS[0]), ('savePlotTo', 2, WRITERS[1])):
        def one(name=name, np=np, writer=writer):
            f, s = setter(ctx, name, np)
            fs = Facts([not_(('empty', ('in', P('path'))))]); wantp = fs.simp(want)
            role = {}
            for k, v in s.st.store.items():
                if not (isinstance(k, tuple) and k[:1] == ('this',)): continue
                v = fs.simp(v)
                for rn, x in (('mode', ('in', P('mode'))), ('fmt', ('in', P('fmt'))), ('path', wantp)):
                    if v == x: role.setdefault(rn, []).append(k[1:])
            changed = {k[1:] for k in s.st.store if isinstance(k, tuple) and k[:1] == ('this',) and s.st.store[k] != ('in', k)}
            for rn in ('mode', 'path') + (('fmt',) if np == 3 else ()):
                if len(role.get(rn, [])) == 1: ctx.ok('settings', f, '%s stores %s as given' % (name, rn))
                else:
                    other = [k for k in changed if k not in sum(role.values(), [])]
                    known = other or any(True for k in changed) or not s.st.store
                    vals = {showloc(k): show(fs.simp(s.st.store[('this',) + k])) for k in other}
                    (ctx.bad if other and all(fs.simp(s.st.store[('this',) + k])[0] in ('in', 'int', 'str', 'addr') for k in other) or not changed else ctx.unk)('settings', f, '%s does not store %s as given (%s)' % (name, rn, clip(str(vals)))); return
            extra = [k for k in changed if k not in sum(role.values(), [])]
            ctx.must('settings', f, True if not extra else False, '%s changes nothing else%s' % (name, ' (but %s)' % [showloc(k) for k in extra] if extra else ''))
            m = role['mode'][0]
            for c in ctx.ctors(rec):
                if ctx.iscopy(rec, c): continue
                cs = ctx.run(c, rec)
                ctx.must('settings', c, cs.read(('this',) + m) == never if isnum(cs.read(('this',) + m)) else None, 'nothing is written unless requested (%s)' % name)
            ctx.guard('write guard', name, guards, ctx, name, writer, {k: v[0] for k, v in role.items()}, always, whenf, never)
        ctx.guard('settings', name, one)

def guards(ctx, name, writer, role, always, whenf, never):
    c = checks(ctx); s = c.s
    evs = [e for e in s.log if getattr(e, 'q', '') == writer and e.pc != FALSE]
    if not evs: ctx.bad('write guard', ctx.method(builder(ctx), 'process', 0), 'process() never calls %s' % writer); return
    md = ('in', OBJ + role['mode'])
    spec = or_(eq(md, always), and_(eq(md, whenf), GF))
    for e in evs:
        if e.loops: ctx.unk('write guard', e, 'written inside a loop'); return
    B = c.abs(); B.fact += [or_(eq(md, always), eq(md, whenf), eq(md, never))]
    got = or_(*[e.pc for e in evs])
    B.oblige('guard', None, 1e9, or_(and_(got, spec), and_(not_(got), not_(spec))))
    for i in range(len(evs)):
        for j in range(i): B.oblige('once', None, 1e9, not_(and_(evs[i].pc, evs[j].pc)))
    outs = B.solve()
    n = sum(B.checked.values())
    bad = [m for l, m in B.bad if l == 'guard']
    what = '%s: written exactly when mode is always, or when fails and a check failed' % name
    if bad: ctx.bad('write guard', evs[0], what + '; wrong for %s' % clip(sem.showmodel({k if k[0] != 'ghost' else ('str', 'some check failed'): v for k, v in bad[0].items() if k[0] != 'ghost' or k[1] == 'fail'}), 700))
    else: ctx.ok('write guard', evs[0], what + ' (%d reachable combinations)' % n)
    if len(evs) > 1: ctx.must('write guard', evs[0], not [1 for l, m in B.bad if l == 'once'], '%s: written once' % name)
    # a failed check must not leave process() before the write
    thr = [t for t in s.throws if t[1].split('::')[-1] == 'TestAssertException']
    early = [t for t in thr if t[4] is not None and t[4] < min(e.id for e in evs) and t[0].pc != FALSE]
    for t in early: ctx.bad('write guard', t[5], '%s: a failed assertion leaves process() before anything is written' % name)
    if not early and thr: ctx.ok('write guard', evs[0], '%s: failed assertions are raised only after writing' % name)
    # arguments
    A = accum(ctx)
    f = ctx.func(writer, req=False)
    for e in evs:
        bufs = [a[1] for a in e.args if a[0] == 'loc' and A.isbuf(a[1])]
        want = ['out'] if writer == WRITERS[0] else ['in', 'out']
        got = [A.kind(b) for b in bufs]
        if len(bufs) != len(want): ctx.unk('content', e, '%s: buffers written not identified' % name)
        else:
            for b, k, w in zip(bufs, got, want):
                full = A.complete(e, b)
                ctx.must('content', e, None if k is None else k == w, '%s: %s holds the %s signal' % (name, showloc(b), {'in': 'input', 'out': 'output'}[w]))
                if k == w: ctx.must('content', e, full, '%s: %s is complete when written' % (name, showloc(b)))
        rest = [e.snap[i].get('') if a[0] == 'loc' and not A.isbuf(a[1]) else a for i, a in enumerate(e.args) if not (a[0] == 'loc' and A.isbuf(a[1]))]
        for what, x in (('path', ('in', OBJ + role['path'])), ('sample rate', RATE)) + ((('format', ('in', OBJ + role['fmt'])),) if 'fmt' in role else ()):
            if x in rest: ctx.ok('content', e, '%s: %s is the one requested' % (name, what))
            else: (ctx.bad if all(r is not None and simple(r) for r in rest) else ctx.unk)('content', e, '%s: %s is not passed (%s)' % (name, what, clip(str([show(r) for r in rest if r]))))

def simple(t): return not any(x[0] in ('phi', 'lo', 'uf', 'undef', 'evout', 'ev', 'upd') for x in subterms(t))

CREATORS = ('fopen', 'open', 'creat', 'drwav_init_file_write', 'drwav_init_file_write_sequential', 'drwav_init_file_write_w', 'remove', 'rename', 'unlink', 'mkdir', 'system', 'popen', 'truncate', 'tmpfile', 'freopen', 'create_directory', 'create_directories', 'remove_all')
def writers(ctx):
    found = []
    from engine.prog import walk
    for f in ctx.prog.fns.values():
        if not f['q'].startswith('hart') or f.get('body') is None: continue
        def visit(n, f=f):
            if n.get('k') == 'ctor' and str(n.get('q', '')).startswith(('std::basic_ofstream', 'std::basic_fstream')) and n.get('args'): found.append((f, n, 'std::ofstream'))
            q = str(n.get('q', '')); nm = q.split('::')[-1].split('<')[0]
            if n.get('k') == 'call':
                if nm in CREATORS and (q == nm or q.startswith('std::')): found.append((f, n, q))
                if nm == 'open' and ('ofstream' in q or 'fstream' in q) and 'ifstream' not in q: found.append((f, n, q))
                if nm == 'write' and 'signalsmith' in q: found.append((f, n, q))
        walk(f, visit)
    seen = set(); inside = False
    for f, n, q in found:
        key = (f['file'], n.get('l'), q)
        if key in seen: continue
        seen.add(key)
        top = enclosing(ctx, f)
        ok = bool(top) and top <= set(WRITERS)
        inside |= ok
        ctx.must('writers', (f['file'], n.get('l', f['line'])), ok, '%s in %s is reached only through the wav or plot writer' % (q, f['q']))
    if not seen: ctx.unk('writers', '', 'no file-creating call found')

def enclosing(ctx, f, seen=None):
    """the outermost named entry points that lead to f: stops at the two writers"""
    if f['q'] in WRITERS: return {f['q']}
    seen = seen or set()
    if f['id'] in seen: return set()
    seen = seen | {f['id']}
    callers = [g for g in ctx.prog.fns.values() if g['q'].startswith('hart') and calls(g, f)]
    out = set()
    for g in callers: out |= enclosing(ctx, g, seen)
    return out or {f['q']}

def calls(g, f):
    key = '_callees'
    if key not in g:
        s = set()
        from engine.prog import walk
        def v(n):
            if 'fn' in n: s.add(n['fn'])
        walk(g.get('body') or {}, v)
        g[key] = s
    return f['id'] in g[key]
