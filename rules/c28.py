"""Compile witnesses: driver/witness.cpp uses every public class and every documented way of passing objects, one per line, for both
sample types; clang++ and g++ type-check it as strict C++11, with and without exceptions on error (and the header alone with and
without the implementation and the unit suffixes): a line that does not type-check is reported. Symbols of its object file: nothing
of the library is a strong definition (two translation units would clash), nothing the test macros make is visible outside its
translation unit, nothing is left undefined that the implementation part does not define, no changeable state of the library is
private to a translation unit. Types of the syntax tree of the double instantiation: no value passes through single precision outside
the wav reader and writer."""
import os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from .common import *
from engine.prog import walk

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WIT = HERE + '/driver/witness.cpp'
HDR = ('include/hart.hpp', 0)

def check(ctx):
    from check import FLAGS, REPO
    lines = open(WIT).read().splitlines()
    jobs = [(cc, x, WIT) for cc in ('clang++', 'g++') for x in ([], ['-DHART_DO_NOT_THROW_EXCEPTIONS=1'])]
    jobs += [(cc, x, None) for cc in ('clang++', 'g++') for x in ([], ['-DHART_DO_NOT_THROW_EXCEPTIONS=1'], ['-DHART_IMPLEMENTATION'], ['-DHART_DO_NOT_ADD_UNITS'])]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: compile_(FLAGS, *j), jobs))
    failed = {}
    for (cc, x, f), (rc, err) in zip(jobs, res):
        if not rc: continue
        es = diagnostics(err, REPO)
        what = '%s%s' % (cc, ' without exceptions' if 'THROW' in str(x) else ' with the implementation' if 'IMPL' in str(x) else ' without unit suffixes' if 'UNITS' in str(x) else '')
        if not es: ctx.unk('compiles', HDR, '%s failed: %s' % (what, clip(err.strip().splitlines()[0] if err.strip() else '?'))); failed[None] = 1; continue
        for msg, at, wl in es[:20]:
            if f is None: ctx.bad('compiles', at or HDR, '%s rejects the header: %s' % (what, clip(msg)))
            elif (wl, at) not in failed:
                failed[wl, at] = 1; failed[wl] = 1
                ctx.bad('passing', at or HDR, '%s rejects "%s": %s' % (what, clip(lines[wl - 1].strip()) if wl else '?', clip(msg)))
    ok = [(j, r) for j, r in zip(jobs, res) if not r[0]]
    for (cc, x, f), r in ok:
        if f is None: ctx.ok('compiles', HDR, '%s %s: the header by itself' % (cc, ' '.join(x)))
    if all(not r[0] for (cc, x, f), r in zip(jobs, res) if f):
        for i, l in enumerate(lines):
            m = re.match(r'W\((\w+)\)', l)
            if m: ctx.ok('passing', ('driver/witness.cpp', i + 1), '%s: accepted by both compilers for both sample types, with and without exceptions' % m.group(1))
    ctx.guard('symbols', None, symbols, ctx, FLAGS)
    ctx.guard('state', None, state, ctx)
    single(ctx)

def compile_(flags, cc, x, f):
    cmd = [cc, '-fsyntax-only', '-pedantic-errors', '-w'] if cc == 'x' else [cc, '-fsyntax-only', '-pedantic-errors']
    cmd += (['-ferror-limit=0'] if cc == 'clang++' else ['-fmax-errors=0']) + flags + x
    try: r = subprocess.run(cmd + ([f] if f else ['-x', 'c++', '-']), input='' if f else '#include "hart.hpp"\n#include "hart.hpp"\n', capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired: return 1, ''
    return r.returncode, r.stderr

def diagnostics(err, repo):
    """[message, place in the library, line of the witness]"""
    out = []; ctxt = []; cur = None
    for l in err.splitlines():
        m = re.match(r'(?:In file included from |\s+from |In instantiation|)?([^\s:]+):(\d+):(?:(\d+):)?\s*(fatal error|error|note|warning|required|In|recursively)?:?\s*(.*)', l.replace('In file included from ', ''))
        if not m: 
            if re.search(r': In (instantiation|function|member|constructor|copy|static)', l): ctxt = []
            continue
        f, n, kind, msg = m.group(1), int(m.group(2)), m.group(4), m.group(5)
        if kind in ('error', 'fatal error'):
            cur = [msg, None, None]; out.append(cur)
            for cf, cn in ctxt: place(cur, cf, cn, repo)
            place(cur, f, n, repo); ctxt = []
        elif kind == 'note' and cur: place(cur, f, n, repo)
        else: ctxt.append((f, n))
    return [tuple(x) for x in out]

def place(cur, f, n, repo):
    if os.path.abspath(f) == WIT:
        if cur[2] is None: cur[2] = n
    elif os.path.abspath(f).startswith(repo + '/include') and cur[1] is None: cur[1] = (os.path.abspath(f)[len(repo) + 1:], n)

def symbols(ctx, flags):
    with tempfile.TemporaryDirectory() as d:
        o = lambda n, *x: subprocess.run(['g++', '-c', '-O0', '-g0', '-w'] + flags + list(x) + ['-o', d + '/' + n], capture_output=True, text=True, input='#include "hart.hpp"\n')
        with ThreadPoolExecutor(2) as ex:
            a, b = ex.map(lambda j: o(*j), [('a.o', WIT), ('b.o', '-DHART_IMPLEMENTATION', '-x', 'c++', '-')])
        if a.returncode or b.returncode: ctx.unk('symbols', HDR, 'the witness does not compile'); return
        A, B = (nm(d + '/' + n) for n in ('a.o', 'b.o'))
    clash = n = 0
    for t, name in A:
        if t in 'TDBRGSC' and t != 'U' and not name.startswith('witness::') and 'witness::' not in name.split('(')[0]:
            ctx.bad('symbols', HDR, '%s is defined in every translation unit that includes the header: linking two of them fails' % name); clash += 1
        elif t in 'WVu' and re.search(r'\bHART_(RunTask|Registrar|registrar)', name):
            ctx.bad('symbols', HDR, '%s is shared by translation units that declare a test on the same line' % name); clash += 1
        elif t in 'WVu' and name.startswith('hart::'): n += 1
    if not clash: ctx.ok('symbols', HDR, 'all %d symbols of the library in the object file can be defined more than once; what the macros make is private' % n)
    have = {x for t, x in A + B if t != 'U'}
    lost = sorted({x for t, x in A if t == 'U' and (x.startswith(('hart::', 'drwav')) or ' hart::' in x.split('(')[0]) and x not in have})
    for x in lost: ctx.bad('symbols', HDR, '%s is used but defined nowhere: linking fails' % x)
    if not lost: ctx.ok('symbols', HDR, 'everything used is defined, in the header or by HART_IMPLEMENTATION')

def nm(o):
    r = subprocess.run(['nm', '-C', o], capture_output=True, text=True)
    return [(m.group(1), m.group(2)) for m in (re.match(r'[0-9a-f ]{16} (\w) (.*)', l) for l in r.stdout.splitlines()) if m and m.group(1) != 'n']

def state(ctx):
    """what a program changes exists once"""
    k = 0; p = ctx.prog
    for g in p.globals.values():
        if not str(g.get('q', '')).startswith('hart::') or not g.get('own'): continue
        t = p.strip(g['t']); ty = p.types[g['t']]
        k += 1
        internal = g['linkage'] in (2, 3) if not g['local'] else None
        if g['local']:
            f = next((f for f in p.fns.values() if g['q'].startswith(f['q'] + '(')), None)
            internal = None if f is None else f.get('linkage') in (2, 3) and not f.get('cls')
        const = g['constexpr'] or ty.get('const') or 'const' in ty.get('s', '').split('*')[-1].split()[:1] or ty.get('s', '').startswith('const ')
        if internal and not const and 'rid' in t and str(t.get('q', t.get('s'))).startswith('hart::'): ctx.bad('state', (g['file'], g['line']), '%s can be changed and exists once in every translation unit' % g['q'])
        else: ctx.ok('state', (g['file'], g['line']), '%s is %s' % (g['q'], 'constant, or exists once in the program' if const or not internal else 'not an object of a class'))

WAV = ('hart::WavFile', 'hart::WavWriter')
def single(ctx):
    """the double instantiation computes in double"""
    p = ctx.prog
    for f in sorted(p.fns.values(), key=lambda f: (f.get('file') or '', f.get('line') or 0)):
        if f.get('body') is None or not f['q'].startswith('hart::') or f['q'].startswith(WAV) or f['q'].startswith('hart::writeWav'): continue
        if isfloat(p, f): continue
        low = []
        def v(n):
            if n.get('t') is None: return
            t = p.strip(n['t'])
            if t.get('k') == 'float' and t.get('bits') == 32 and n['k'] not in ('float', 'int') and not constant(n): low.append(n)
        walk(f['body'], v)
        for i in f.get('inits') or []: walk(i, v)
        if low: ctx.bad('precision', (f['file'], low[0].get('l', f['line'])), '%s works in single precision in a program that uses double' % f['q'])
        else: ctx.ok('precision', f, 'works in double')

def constant(n):
    """a value that is the same in both precisions, or a constant whatever it is"""
    if n['k'] in ('float', 'int'): return True
    if n['k'] == 'cast': return constant(n['e'])
    if n['k'] in ('un', 'paren'): return constant(n.get('e') or n.get('a') or {'k': '?'})
    if n['k'] == 'bin': return constant(n['a']) and constant(n['b'])
    return False

def isfloat(p, f):
    """belongs to an instantiation for float"""
    if f.get('cls') in p.recs:
        r = p.recs[f['cls']]
        if any('float' in str(a) for a in r.get('targs', [])): return True
        if 'hart::' in r['q'] and any('float' in str(a) for a in r.get('targs', [])): return True
    if f.get('templated') : return True
    if any('float' in str(p.types[a]['s'] if isinstance(a, int) else a) for a in f.get('targs', [])): return True
    return any('float' in p.strip(q['t']).get('s', '') for q in f['params'])
