"""writeBuffer() is summarised once per enumerator of WavFormat (the format a constant, the audio, its size and the
rate symbolic). The format structure handed to dr_wav is read off at the call: channels, rate, encoding, bits. The block of
samples handed to drwav_write_pcm_frames must be all frames, and every element written to it is compared with the place
frame * channels + channel (times the bytes per sample) it has to have, over complete loops; its value, as a function of the
sample, with the clamped and scaled sample (identity testing; bytes reassembled). The encoded file then has to reach the named
file whole. The order in which WavFile takes a decoded file apart is compared with the same formula."""
from .common import *
from .c13 import drwav
BUF = P('buffer'); NCH, NFR = ('in', BUF + ('#nch',)), ('in', BUF + ('#nfr',)); SMP = ('in', BUF + SKEY); RATE, NAME = ('in', P('rate')), ('in', P('fileName'))
X = ('in', P('x'))
FORMATS = {'pcm16': (1, 16, 32767.0), 'pcm24': (1, 24, 8388607.0), 'pcm32': (1, 32, 2147483647.0), 'float32': (3, 32, None)}
WIDTH = {'float': 32, 'double': 64, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32, 'unsigned char': 8, 'signed char': 8, 'char': 8, 'long': 64}

def check(ctx):
    for n in FORMATS: ctx.guard('layout', n, one, ctx, n)
    ctx.guard('reading', 'WavFile', reading, ctx)

def writer(ctx):
    r = ctx.rec('hart::WavWriter'); return r, ctx.method(r, 'writeBuffer', 4)

def one(ctx, name):
    r, f = writer(ctx); tag, bits, scale = FORMATS[name]
    s = ctx.run(f, r, [BUF, NAME[1], RATE, num(enumval(ctx, 'hart::WavFormat::' + name))], narrow=True)
    inits = [e for e in s.log if e.kind == 'call' and e.q.startswith('drwav_init') and 'write' in e.q and e.pc != FALSE]
    if len(inits) != 1: raise Missing('the dr_wav writer is set up once')
    i = inits[0]
    a = next((x for x in i.args if x[0] == 'addr' and x[1] + ('channels',) in i.store), None)
    if a is None: raise Missing('the format structure')
    F = lambda k: i.store.get(a[1] + (k,), ('undef',))
    why = lambda v: None if v[0] == 'undef' or not pure(v) else False
    for k, want, what in (('channels', NCH, 'the channel count of the audio'), ('format', num(tag), 'encoding %d' % tag), ('bitsPerSample', num(bits), '%d bits per sample' % bits)):
        v = F(k)
        if k == 'channels': v = wide(v, 16)         # at most 128 channels
        ctx.must('header', i, True if v == want else why(v), '%s: declares %s%s' % (name, what, '' if v == want else ' (%s)' % clip(show(v))))
    v = F('sampleRate')
    c = and_(lt(sub(v, RATE), ONE), lt(sub(RATE, v), ONE))
    q = 'eq' if pure(v) and compare(c, TRUE, None, n=200, seed=ctx.seed, want='b', special=[(lambda t: t == RATE, lambda r, t: r.choice([8000.0, 44100.0, 48000.0, 96000.0, 22050.0, 192000.0, float(r.randrange(1, 400000))]))]) == 'eq' else why(v)
    ctx.must('header', i, True if q == 'eq' else q, '%s: declares the sample rate%s' % (name, '' if q == 'eq' else ' (%s)' % clip(show(v))))
    audio(ctx, s, i, name, bits, scale)
    arrives(ctx, s, i, name)

def audio(ctx, s, i, name, bits, scale):
    ws = [e for e in s.log if e.kind == 'call' and e.q.startswith('drwav_write') and e.pc != FALSE]
    if not ws: ctx.bad('frames', i, '%s: no frames are written' % name); return
    if len(ws) > 1: ctx.unk('frames', ws[1], '%s: frames written in %d places' % (name, len(ws))); return
    w = ws[0]
    if w.q not in ('drwav_write_pcm_frames', 'drwav_write_pcm_frames_le'): ctx.unk('frames', w, '%s: %s' % (name, w.q)); return
    if w.args[0] != i.args[0]: ctx.unk('frames', w, '%s: to a different writer' % name); return
    if w.loops: ctx.unk('frames', w, '%s: frames written piecewise' % name); return
    if not unconditional(ctx, 'frames', w, w.pc, '%s: frames are written' % name, w.asm): return
    n = wide(w.args[1])
    ctx.must('frames', w, True if n == NFR else False if pure(n) else None, '%s: all frames of the audio are written%s' % (name, '' if n == NFR else ' (%s)' % clip(show(n))))
    p = w.args[2]
    if p[0] != 'ptr' or p[2] != ZERO: ctx.unk('frames', w, '%s: samples from %s' % (name, clip(show(p)))); return
    V = p[1]
    decl = next((e for e in s.log if e.kind == 'decl' and e.loc == V and 't' in e.node), None)
    t = ctx.prog.strip(decl.node['t']) if decl is not None else None
    width = WIDTH.get(t['targs'][0]) if t is not None and t.get('targs') else None
    places = []; V0 = V; con = w.store.get(V + (('[]',),))
    if con is not None and con[0] in ('upd', 'lo', 'store') and not any(e.kind == 'write' and e.loc[:len(V)] == V for e in s.log):     # a copy of a list made elsewhere
        V = next((k[:-1] for k, v in w.store.items() if k[-1:] == (('[]',),) and v == con and any(e.kind == 'write' and e.loc[:-1] == k[:-1] for e in s.log)), V)
    for e in s.log:
        if e.pc == FALSE or e.seq > w.seq: continue
        if e.kind == 'write' and e.loc[:len(V)] == V and len(e.loc) == len(V) + 1 and e.loc[-1][0] == '[]' and len(e.loc[-1]) == 2: places.append((e, e.loc[-1][1], e.val))
        elif e.kind in ('vresize', 'vclear', 'vassign', 'vswap', 'append') and getattr(e, 'vec', None) == V and e.kind != 'vresize': ctx.unk('layout', e, '%s: %s' % (name, e.kind)); return
    if not places: ctx.unk('layout', w, '%s: where the samples come from' % name); return
    m = len(places)
    if width is None: ctx.unk('layout', w, '%s: size of an element' % name); return
    off = []
    vals = {}
    for j, (e, ix, v) in enumerate(places):
        x = [y for y in [v] + list(subterms(v)) if y[0] == 'sel' and y[1] == SMP]
        x = sorted(set(x), key=repr)
        if len(x) != 1 or len(x[0][2]) != 3: ctx.unk('layout', e, '%s: which sample: %s' % (name, clip(show(v)))); return
        c, fr = x[0][2][1], x[0][2][2]
        if not unconditional(ctx, 'layout', e, and_(e.pc, *[s.loops[L].pc for L in e.loops]), '%s: every sample is written' % name): return
        if any(s.loops[L].exitcond != FALSE for L in e.loops): ctx.unk('layout', e, '%s: loops that end early' % name); return
        cover = full(s, e, c, NCH), full(s, e, fr, NFR)
        if len(e.loops) != 2 or None in cover or cover[0][1] == cover[1][1]: ctx.unk('layout', e, '%s: loops' % name); return
        for ok, what in ((cover[0][0], 'channel'), (cover[1][0], 'frame')):
            if not ok: ctx.bad('layout', e, '%s: not every %s is written' % (name, what)); return
        ix, c, fr = wide(ix), wide(c), wide(fr)
        if width * m != bits: off.append((e, ix)); continue
        d = sub(ix, mul(num(m), add(c, mul(NCH, fr))))
        if not (d[0] == 'int' and 0 <= d[1] < m and d[1] not in vals):
            (ctx.bad if pure(ix) else ctx.unk)('layout', e, '%s: channel %s of frame %s goes to place %s' % (name, clip(show(c)), clip(show(fr)), clip(show(ix)))); return
        vals[d[1]] = subst(v, {x[0]: X})
    if off: ctx.bad('layout', places[0][0], '%s: %d elements of %d bits for a sample of %d bits' % (name, m, width, bits)); return
    ctx.ok('layout', places[0][0], '%s: the sample of channel c in frame f goes to place %sf * channels + c%s' % (name, '%d * (' % m if m > 1 else '', ')' if m > 1 else ''))
    v = vals[0] if m == 1 else None
    if scale is None:
        r = 'eq' if v is not None and v in (X, ('f32', X)) else compare(('f32', v), ('f32', X), None, n=500, seed=ctx.seed, special=special(1.0)) if v is not None and pure(v) else None
        ctx.must('value', places[0][0], True if r == 'eq' else False if r is not None and r[0] == 'ne' else None, '%s: samples are stored as they are%s' % (name, '' if r == 'eq' else ' (%s)' % clip(show(v)))); return
    if m > 1:
        if bits != 8 * m: ctx.unk('value', places[0][0], '%s: %d elements' % (name, m)); return
        u = ZERO
        for j in range(m): u = add(u, mul(num(256 ** j), ('band', vals[j], num(255))))
        v = sub(u, mul(num(256 ** m), ite(lt(u, num(256 ** m // 2)), ZERO, ONE)))
    want = ('min', ('max', mul(('flt', scale), X), ('flt', -scale)), ('flt', scale))
    if not pure(v): ctx.unk('value', places[0][0], '%s: %s' % (name, clip(show(v)))); return
    r = compare(and_(lt(sub(v, want), ONE), lt(sub(want, v), ONE)), TRUE, None, n=1500, seed=ctx.seed, want='b', special=special(scale))
    at = ''
    if r != 'eq' and r[0] == 'ne': at = ' (wrong for a sample of %r)' % r[3].leaf(X, 'n')
    ctx.must('value', places[0][0], True if r == 'eq' else False if r[0] == 'ne' else None, '%s: samples are clamped to full scale and scaled by %d%s' % (name, scale, at))

def wide(t, bits=32):
    """without conversions to integer types that hold any index"""
    return subst(t, {y: y[1] for y in [t] + list(subterms(t)) if y[0] == 'narrow' and y[2] >= bits}) if any(y[0] == 'narrow' for y in [t] + list(subterms(t))) else t

def special(scale):
    def mk(r, t):
        x = r.random()
        return r.uniform(-1, 1) if x < 0.4 else r.choice([1.0, -1.0, 0.0, 1.5, -1.5, 2.0, -2.0, 100.0, -100.0, 0.9999, -0.9999, 1 + 1 / scale, -1 - 1 / scale]) if x < 0.8 else r.uniform(-4, 4)
    return [(lambda t: t == X, mk)]

def full(s, e, t, n):
    """does t take every value from 0 to n-1 in one of the loops the event is in: (so, loop) or None"""
    for L in e.loops:
        k = ('kap', L); T_ = s.loops[L].T
        if T_ is None: continue
        if t == k or t == sub(sub(T_, ONE), k): return (True if T_ == n else False if pure(T_) else None, L) if T_ == n or pure(T_) else None
        d = sub(t, k)
        if not mentions(d, lambda z: z[0] == 'kap') and pure(d) and pure(T_): return (False, L)
    return None

def arrives(ctx, s, i, name):
    """the file consists of what dr_wav made of it"""
    if i.q.startswith('drwav_init_file_write'):
        p = i.args[1]; ctx.must('file', i, True if p == NAME or mentions(p, lambda y: y == NAME) else None, '%s: written to the file that was named' % name); return
    if not i.q.startswith('drwav_init_memory_write'): ctx.unk('file', i, i.q); return
    un = [e for e in s.log if e.kind == 'call' and e.q == 'drwav_uninit' and e.pc != FALSE]
    wr = [e for e in s.log if e.kind == 'call' and e.q.endswith('ostream::write') and e.pc != FALSE]
    op = [e for e in s.log if e.kind == 'open' and e.pc != FALSE]
    if wr and op and not un and not any(e.kind == 'icall' for e in s.log): ctx.bad('file', i, '%s: the file is never finished' % name); return
    if not un or not wr or not op: raise Missing('how the encoded file gets to the disk')
    data, size = ('evout', i.id, 1), ('evout', i.id, 2)
    if len(wr) != 1 or len(op) != 1: raise Missing('one write to one file')
    o, w = op[0], wr[0]
    ctx.must('file', o, True if o.args and o.args[0] == NAME else None, '%s: written to the file that was named' % name)
    mode = o.args[1] if len(o.args) > 1 else None
    ctx.must('file', o, True if isnum(mode or ()) and mode[1] & 4 and not mode[1] & 1 else False if mode is None or isnum(mode) else None, '%s: opened as a binary file, from its start' % name)
    a = w.args
    ok = a[0] == data and a[1] == size
    ctx.must('file', w, True if ok else False if a[0] == data and pure_(a[1], size) else None, '%s: the whole encoded file is written%s' % (name, '' if ok else ' (%s bytes from %s)' % (clip(show(a[1])), clip(show(a[0])))))
    unconditional(ctx, 'file', w, w.pc, '%s: the encoded file is written' % name, w.asm)
    last = [e for e in s.log if e.kind == 'call' and e.q.startswith('drwav_write') and e.pc != FALSE]
    ctx.must('file', un[0], True if len(un) == 1 and un[0].pc == TRUE and all(x.seq < un[0].seq for x in last) and un[0].seq < w.seq else False if un[0].seq > w.seq else None, '%s: finished before it is written' % name)

def pure_(v, size): return all(y[0] in ('int', 'add', 'mul', 'min', 'max', 'evout') for y in [v] + list(subterms(v)) if isinstance(y[0], str) and y and len(y) > 1)

# ---------------------------------------------------------------- reading
def reading(ctx):
    r = ctx.rec('hart::WavFile'); seen = 0
    for c in ctx.ctors(r):
        if ctx.iscopy(r, c): continue
        s = ctx.run(c, r)
        opens = [e for e in s.log if e.kind == 'call' and 'drwav_open_file_and_read_pcm_frames' in e.q and e.pc != FALSE]
        if len(opens) != 1: raise Missing('the file is decoded in one go')
        o = opens[0]; nch, rate, nfr = (('evout', o.id, k) for k in (1, 2, 3)); seen += 1
        def store(k): return s.read(('this', k))
        sr = [v for k, v in s.st.store.items() if k[:1] == ('this',) and v in (rate, ('f64', rate))]
        ctx.must('reading', o, True if sr else None, 'the sample rate of the file is kept')
        ws = [e for e in s.log if e.kind == 'write' and e.pc != FALSE and e.loc[-3:-2] == ('#s',) and e.loops]
        if not ws: raise Missing('where the samples go')
        for e in ws:
            ch, fr = e.loc[-2][1], e.loc[-1][1]
            x = [y for y in [e.val] + list(subterms(e.val)) if y[0] == 'sel' and mentions(y[1], lambda z: z[:2] == ('ev', o.id))]
            if len(set(x)) != 1: ctx.unk('reading', e, 'which sample: %s' % clip(show(e.val))); continue
            x = x[0]; ix = x[2][-1]
            want = add(ch, mul(nch, fr))
            if e.val != x and e.val not in (('f32', x), ('f64', x)): ctx.unk('reading', e, 'samples are changed: %s' % clip(show(e.val))); continue
            ctx.must('reading', e, True if ix == want else False if not mentions(ix, lambda z: z[0] in ('phi', 'lo', 'undef')) else None, 'channel c of frame f is element f * channels + c of the decoded file%s' % ('' if ix == want else ' (%s)' % clip(show(ix))))
            a, b = full2(s, e, ch, nch), full2(s, e, fr, nfr)
            ctx.must('reading', e, True if a and b and all(s.loops[L].exitcond == FALSE for L in e.loops) else False if False in (a, b) else None, 'every frame of every channel is taken over')
    if not seen: raise Missing('constructors')
    f = ctx.method(r, 'renderNextBlock'); s = ctx.run(f, r, [P('output')]); n = 0
    for e in s.log:
        if e.kind != 'write' or e.pc == FALSE or e.loc[:2] != P('output') + ('#s',): continue
        for x in {y for y in [e.val] + list(subterms(e.val)) if y[0] == 'sel' and y[1][0] == 'in' and y[1][1][-3:-2] == ('#s',) and y[1][1][:1] != P('output')}:
            n += 1; ok = x[2][1] == e.loc[-2][1]
            ctx.must('reading', e, True if ok else False if pure(x[2][1]) else None, 'channel c plays channel c of the file%s' % ('' if ok else ' (%s)' % clip(show(x[2][1]))))
    if not n: ctx.unk('reading', f, 'which channel is played')

def full2(s, e, t, n):
    for L in e.loops:
        k = ('kap', L); T_ = s.loops[L].T
        if T_ is not None and (t == k or t == sub(sub(T_, ONE), k)): return T_ == n if not mentions(T_, lambda z: z[0] in ('phi', 'lo')) else None
    return None
