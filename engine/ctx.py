"""What a rule needs: the exported program, summaries of its functions, and a place to record
which obligations were discharged, violated, or could not be decided."""
import sys, os, traceback
from .prog import Prog, walk
from .eval import Engine, State, Giveup
from .term import *
from . import term as T
from . import sem
from .sem import Facts, compare, Unknown, TooMany

sys.setrecursionlimit(20000)

class Missing(Exception): pass

class Sum:
    """a function's summary: final state, result, effect log, loops, exceptions"""
    def __init__(self, e, st, ret): self.e = e; self.st = st; self.ret = ret
    @property
    def log(self): return self.e.log
    @property
    def loops(self): return self.e.loops
    @property
    def throws(self): return self.e.throws
    def evs(self, kind, n=None, q=None):
        return [x for x in self.e.log if x.kind == kind and (n is None or getattr(x, 'n', None) == n) and (q is None or getattr(x, 'q', None) == q)]
    def read(self, loc): return self.e.read(loc, self.st)
    def arr(self, loc): return self.e.read_arr(loc, self.st)

def P(name): return (('P', name),)
def pv(name): return ('in', P(name))

class Ctx:
    def __init__(self, pid, progs, tier='quick', seed=1, repo='/repo'):
        self.pid = pid; self.progs = progs; self.tier = tier; self.seed = seed; self.repo = repo
        self.ok_ = []; self.bad_ = []; self.unk_ = []; self.fns = set(); self.notes = []
        self._cache = {}
        self.prog = progs['default']
        self.hierarchy()
        self.known = None; self.use('default')

    def use(self, cfg):
        """switches to another build of the library"""
        old = getattr(self, 'cfg', None); self.cfg = cfg
        self.prog = self.progs[cfg]; self._cache = {}
        T.OWNED.clear(); T.NEVERNULL.clear(); T.READY.clear(); T._MEMO.clear()
        if cfg == 'default':
            # where errors are thrown, a copy that is not refused gives an object
            T.NEVERNULL.update(('copy', 'move'))
            if self.known is None: self.known = self.invariants()
            T.OWNED.update(self.known[0]); T.READY.update(self.known[1])
        return old

    def invariants(self):
        """owning pointers that every constructor fills and nothing empties but giving the object away; yes/no fields that prepare() sets"""
        p = self.prog; owned = set(); ready = set(); names = {}; emptied = set()
        for r in p.recs.values():
            for fl in r.get('fields', []):
                if r['q'].startswith('hart::'): names.setdefault(fl['n'], set()).add(r['q'])
        def ptr(fl): return p.strip(fl['t'])['s'].startswith('std::unique_ptr<') or p.strip(fl['t']).get('q') == 'std::unique_ptr'
        fns, cache = self.fns, self._cache; self.fns = set()
        try:
            for r in p.recs.values():
                if not r['q'].startswith('hart::') or r.get('lambda'): continue
                fs = [fl['n'] for fl in r.get('fields', []) if ptr(fl) and len(names[fl['n']]) == 1]
                cs = [c for c in self.ctors(r) if not c.get('deleted') and not self.iscopy(r, c)] if fs else []
                for n in fs:
                    good = bool(cs)
                    for c in cs:
                        try: v = self.run(c, r).read(('this', n))
                        except Exception: good = False; break
                        if not (v[0] == 'ev' and v[2] in T.NEVERNULL or v[0] == 'addr' or v[0] == 'in' and v[1][:1] != ('this',)): good = False; break
                    if good: owned.add(n)
            T.OWNED.update(owned); T._MEMO.clear()
            for r in self.subclasses('hart::Matcher'):
                for fl in r.get('fields', []):
                    if self.prog.strip(fl['t'])['s'] != 'bool' or len(names[fl['n']]) != 1: continue
                    others = [f for f in self.methods(r) if f['n'] != 'prepare' and f.get('kind') != 'ctor']
                    try:
                        if self.run(self.method(r, 'prepare', 3), r, opaque=set()).read(('this', fl['n'])) != TRUE: continue
                        if all(self.run(f, r).read(('this', fl['n'])) == ('in', ('this', fl['n'])) for f in others if not f.get('const')): ready.add(fl['n'])
                    except Exception: pass
        finally: self.fns, self._cache = fns, cache
        return owned, ready

    def hierarchy(self):
        std = Engine.STDEXC
        def anc(q, seen=()):
            out = list(std.get(q, []))
            for r in self.prog.recq.get(q, []):
                for b in r.get('bases', []):
                    out.append(b['q']); out += anc(b['q'])
            return out
        for q in list(std) + list(self.prog.recq): 
            a = anc(q)
            if a: sem.HIER[q] = tuple(a)

    # ---------------------------------------------------------------- recording
    def place(self, w):
        if w is None: return ''
        if isinstance(w, str): return w
        if isinstance(w, tuple): return '%s:%s' % (w[0].replace(self.repo + '/', ''), w[1])
        if isinstance(w, dict): return '%s:%s %s' % (w['file'].replace(self.repo + '/', ''), w['line'], w.get('q', ''))
        f = getattr(w, 'file', None)
        if f is not None: return '%s:%s' % (f.replace(self.repo + '/', ''), w.line)
        return str(w)
    def ok(self, rule, where, what=''): self.ok_.append((rule, self.place(where), what))
    def bad(self, rule, where, what): self.bad_.append((rule, self.place(where), what))
    def unk(self, rule, where, why): self.unk_.append((rule, self.place(where), why))
    def must(self, rule, where, holds, what):
        """records an obligation whose truth is already known (None: could not be decided)"""
        if holds is None: self.unk(rule, where, what)
        elif holds: self.ok(rule, where, what)
        else: self.bad(rule, where, what)
        return holds
    def guard(self, rule, where, f, *a):
        """runs a rule; what the engine does not understand leaves it undecided"""
        try: return f(*a)
        except (Giveup, Missing, Unknown, TooMany) as x: self.unk(rule, where, '%s: %s' % (type(x).__name__, x))
        except Exception as x:
            tb = traceback.extract_tb(x.__traceback__)
            self.unk(rule, where, 'analysis stopped: %r at %s' % (x, ' < '.join('%s:%s' % (os.path.basename(t.filename), t.lineno) for t in tb[-3:])))
        return None

    def same(self, rule, where, got, want, facts=None, what='', n=300, special=None, wantk='n', guard=TRUE):
        r = compare(got, want, facts, n=n, seed=self.seed, special=special, want=wantk, guard=guard)
        if r == 'eq': self.ok(rule, where, what); return True
        if r[0] == 'ne':
            self.bad(rule, where, '%s: is %s, should be %s (differ e.g. %s vs %s)' % (what, clip(show(got)), clip(show(want)), r[1], r[2])); return False
        self.unk(rule, where, '%s: %s' % (what, r[1])); return None

    def gsame(self, rule, where, got, want, facts=TRUE, what='', special=None, free=None):
        """two conditions agree"""
        r = sem.guardcmp(got, want, facts, self.seed, special, free)
        if r == 'eq': self.ok(rule, where, what); return True
        if r[0] == 'ne': self.bad(rule, where, '%s: happens when %s, should be when %s (differ for %s)' % (what, clip(show(got)), clip(show(want)), clip(str(r[1])))); return False
        self.unk(rule, where, '%s: %s [%s]' % (what, r[1], clip(show(got), 200))); return None

    # ---------------------------------------------------------------- program
    def rec(self, q, targ='double'):
        p = self.prog
        for t in (targ, None):
            r = p.rec(q, t)
            if r is not None: return r
        raise Missing('class ' + q)
    def subclasses(self, q, targ='double'):
        return sorted([r for r in self.prog.subclasses(q, targ) if r['q'].startswith('hart::') and not r.get('lambda')], key=lambda r: r['q'])
    def method(self, rec, name, np=None, pred=None, req=True):
        p = self.prog
        seen = rec
        while seen is not None:
            c = [f for f in p.fns.values() if f.get('cls') == seen['id'] and f['n'] == name and f.get('body') is not None and (np is None or len(f['params']) == np) and (pred is None or pred(f))]
            if c: return sorted(c, key=lambda f: f['line'])[0]
            nx = None
            for b in seen.get('bases', []):
                if b['id'] in p.recs: nx = p.recs[b['id']]
            seen = nx
        if req: raise Missing('%s::%s' % (rec['q'], name))
        return None
    def methods(self, rec, name=None):
        return sorted([f for f in self.prog.fns.values() if f.get('cls') == rec['id'] and (name is None or f['n'] == name) and f.get('body') is not None], key=lambda f: f['line'])
    def func(self, q, pred=None, req=True):
        c = [f for f in self.prog.byq.get(q, []) if f.get('body') is not None and (pred is None or pred(f))]
        if c: return c[0]
        if req: raise Missing(q)
        return None
    def ctors(self, rec): return [f for f in self.methods(rec) if f.get('kind') == 'ctor']
    def valctor(self, rec):
        """the constructor that takes settings (not copy/move), with the most parameters"""
        c = [f for f in self.ctors(rec) if not self.iscopy(rec, f)]
        if not c: raise Missing('constructor of ' + rec['q'])
        return max(c, key=lambda f: len(f['params']))
    def iscopy(self, rec, f):
        if len(f['params']) != 1: return False
        t = self.prog.strip(f['params'][0]['t'])
        return t.get('rid') == rec['id']

    def attach(self, rec):
        """the public way of attaching an envelope"""
        c = self.methods(self.base(rec, 'hart::DSP'), 'withEnvelope')
        c = [f for f in c if len(f['params']) == 2 and self.prog.ty(f['params'][1]['t'])['k'] in ('ref', 'rref')]
        if not c: raise Missing('withEnvelope')
        return c[0]
    def base(self, rec, q):
        if rec['q'] == q: return rec
        for b in rec.get('bases', []):
            if b['id'] in self.prog.recs:
                r = self.base(self.prog.recs[b['id']], q)
                if r is not None: return r
        return None

    # ---------------------------------------------------------------- summaries
    def engine(self, **kw): return Engine(self.prog, **kw)
    def run(self, fn, rec=None, args=None, this='this', **kw):
        key = (fn['id'], rec['id'] if rec else None, repr(args), this, repr(kw), id(self.prog))
        if key in self._cache: return self._cache[key]
        e = self.engine(**kw)
        st, ret = e.run(fn, this=(this,) if rec or fn.get('cls') else None, args=args, dyn=rec['id'] if rec else None)
        self.fns.add(fn['q'])
        s = Sum(e, st, ret); self._cache[key] = s
        return s
    def seq(self, rec, steps, this=(('P', 'obj'),), **kw):
        """a sequence of calls on one object; steps: (function, args)"""
        e = self.engine(**kw); st = State(); ret = None
        e.dyn[this] = rec['id']
        if isinstance(this[0], tuple) and this[0][0] == 'var': pass
        for fn, args in steps:
            st2, ret = e.run(fn, this=this, args=args, st=st)
            self.fns.add(fn['q'])
            if st2 is None: raise Missing('%s never returns normally' % fn['q'])
            st = st2
            if fn['n'] == 'match' or any(g['n'] == 'prepare' for g, _ in steps): continue
            for n in T.READY: st.store.pop(this + (n,), None)       # prepared before it judges anything
        return Sum(e, st, ret)

def clip(s, n=300): return s if len(s) <= n else s[:n] + '...'
