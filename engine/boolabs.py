"""Predicate-abstraction fixpoint over the loops of a summary: which truth values of chosen predicates and
history flags ("ghosts") can be reached together. Loop-carried variables appear only through the predicates
that the questions ask about; everything decided outside (results of boundary calls, elements of input lists)
is non-deterministic. The domain is finite, so the iteration terminates."""
from .term import *
from . import term as T
from .sem import Facts, consistent, showmodel, lin_items
from .eval import Giveup, isbool

class Restart(Exception): pass
class Need(Exception):
    def __init__(self, a): self.a = a

class BoolAbs:
    LIMIT = 20000
    def __init__(self, s, freearr=None, fact=None):
        """freearr: loop-carried arrays whose elements may be taken as non-deterministic: key -> ghost name that
        must be set whenever such an element is true"""
        self.s = s; self.loops = s.loops; self.nid = s.e.loopnid
        self.ghosts = {}       # name -> True
        self.items = {}        # L -> list of (position, kind, data)
        self.want = {L: [] for L in self.loops}; self.ex = {L: [] for L in self.loops}; self.exitat = {L: [] for L in self.loops}
        self.freearr = freearr or {}
        self.children = {}
        for L, lp in self.loops.items(): self.children.setdefault(lp.parent, []).append(L)
        self.counter = {}
        self.evrange = {}
        for e in s.log:
            for L in e.loops: self.evrange.setdefault(e.id, set()).add(L)
        self.fact = fact or []
        self.bad = []; self.checked = {}
        self.steps = 0
        self.under = False     # search for violations only: comparisons of loop-carried sizes are decided where they are free, paths that need more are dropped
        self._innext = False

    def ghost(self, name, L, pos, formula):
        """after the event at `pos` in loop L the flag is set if formula holds"""
        self.ghosts[name] = True
        self.items.setdefault(L, []).append((pos, 'ghost', name, formula))
    def oblige(self, label, L, pos, formula):
        """formula holds whenever that point is reached"""
        self.items.setdefault(L, []).append((pos, 'oblige', label, formula)); self.checked[label] = 0

    # -------------------------------------------------------------- evaluation
    def bev(self, t, env):
        op = t[0]
        if op == 'bool': return t[1]
        if t in env: return env[t]
        if op in ('and', 'or'):
            need = None
            for x in t[1:]:
                try: v = self.bev(x, env)
                except Need as n: need = need or n; continue
                if v == (op == 'or'): return v
            if need: raise need
            return op == 'and'
        if isnum(t): return t[1] != 0
        if op == 'null': return False
        if op == 'bor':
            need = None
            for x in t[1:]:
                try: v = self.bev(x, env)
                except Need as n: need = need or n; continue
                if v: return True
            if need: raise need
            return False
        if op == 'not': return not self.bev(t[1], env)
        if op == 'ite' and isbool(t[2]) | isbool(t[3]) | True:
            return self.bev(t[2] if self.bev(t[1], env) else t[3], env)
        if op == 'eq' and t[1][0] in ('bool', 'eq', 'not', 'and', 'or', 'lt', 'le') or op == 'eq' and t[2][0] in ('eq', 'not', 'and', 'or', 'lt', 'le'):
            return self.bev(t[1], env) == self.bev(t[2], env)
        if op in ('eq', 'lt', 'le', 'empty'):     # distribute over if-then-else
            for i in range(1, len(t)):
                if isinstance(t[i], tuple) and t[i] and t[i][0] == 'ite':
                    c = self.bev(t[i][1], env)
                    return self.bev(T.rebuild(op, t[1:i] + (t[i][2 if c else 3],) + t[i + 1:]) if op != 'empty' else empty_(t[i][2 if c else 3]), env)
        if op == 'empty':
            e2 = empty_(t[1])
            if e2 != t: return self.bev(e2, env)
        raise Need(t)

    def stack(self): return self._stack
    def missing(self, a):
        """how an unknown atom is to be handled"""
        st = self._stack
        if a[0] == 'exists':
            L, p = a[1], a[2]
            if L in st: raise Giveup('exists of an enclosing loop')
            L0 = L
            while self.loops[L0].parent is not None and self.loops[L0].parent not in st: L0 = self.loops[L0].parent
            if L0 != L:
                if a in self.exitat[L0]: raise Giveup('undefined: %s' % show(a)[:200])
                self.exitat[L0].append(a); raise Restart()
            if p in self.ex[L]: raise Giveup('undefined: %s' % show(a)[:200])
            self.ex[L].append(p); raise Restart()
        if a[0] == 'forall': raise Giveup('forall')
        inner = set()
        for x in subterms(a):
            if x[0] == 'lo': inner.add(x[1])
            if x[0] in ('phi', 'kx', 'kn', 'kap', 'exists', 'red') and x[1] not in st: inner.add(x[1])
            if x[0] in ('ev', 'evout', 'throws', 'isa'):
                for L in self.evrange.get(x[1], ()):
                    if L not in st: inner.add(L)
        if inner:
            L = min(inner)
            top = [l for l in inner if self.loops[l].parent not in inner]
            L = top[0]
            while self.loops[L].parent is not None and self.loops[L].parent not in st: L = self.loops[L].parent
            if any(x[0] == 'lo' and x[1] == L for x in subterms(a)):
                p = subst_lo(a, L)
                if p in self.want[L]: raise Giveup('undefined: %s' % show(a)[:200])
                self.want[L].append(p); raise Restart()
            if a in self.exitat[L]: raise Giveup('undefined: %s' % show(a)[:200])
            self.exitat[L].append(a); raise Restart()
        ph = [x for x in subterms(a) if x[0] == 'phi' and x[1] in st]
        if ph:
            for x in ph:
                if x[2] in self.freearr and a[0] == 'sel' and a[1] == x: return self.freearr[x[2]]
            if len({x[1] for x in ph}) > 1: raise Giveup('relation between loop levels: %s' % show(a)[:200])
            L = ph[0][1]
            if any(isinstance(x, tuple) and x[0] in ('kap', 'ev', 'evout') and True for x in subterms(a)): raise Giveup('loop-carried data in %s' % show(a)[:200])
            p = subst(a, {x: ('st', x[2]) for x in ph})
            if p in self.want[L]: raise Giveup('undefined: %s' % show(a)[:200])
            if a[0] in ('lt', 'le', 'eq') and not all(self.simple(x, a) for x in ph):
                if self._incond: return None        # how often a loop runs is left open
                if self.under and len(ph) == 1 and all(self.external(x) for x in ph) and all(k is None or k in ph for z in a[1:] for k, n in lin_items(z)):
                    if self._innext: return 'dead'
                    if len(self.want[L]) > 24: raise Giveup('too many predicates')
                    self.want[L].append(p); raise Restart()
                raise Giveup('arithmetic on loop-carried %s' % show(a)[:200])
            if len(self.want[L]) > 24: raise Giveup('too many predicates')
            self.want[L].append(p); raise Restart()
        return None

    def simple(self, x, a):
        """a comparison of one loop-carried flag, counter or enumerator with a constant"""
        return a[1] == x and isconst(a[2]) or a[2] == x and isconst(a[1])
    _incond = False
    def cforks(self, t, env):
        self._incond = True
        try: r = list(self.forks(t, env))
        finally: self._incond = False
        return r
    def forks(self, t, env):
        """(value, environment) for every way of deciding the open atoms of t"""
        self.steps += 1
        if self.steps > self.LIMIT: raise Giveup('too many abstract states')
        try: yield self.bev(t, env), env; return
        except Need as n: a = n.a
        g = self.missing(a)
        if g == 'dead': return
        for v in (False, True):
            if v and g is not None and not env.get(('ghost', g)): continue
            e2 = dict(env); e2[a] = v
            if not consistent({k: x for k, x in e2.items() if k[0] not in ('ghost',)}): continue
            if any(self.tv(f, e2) is False for f in self.fact): continue
            yield from self.forks(t, e2)
    def tv(self, f, env):
        try: return self.bev(f, env)
        except Need: return None

    def forkall(self, ts, env):
        """values of several terms"""
        if not ts: yield (), env; return
        for v, e1 in self.forks(ts[0], env):
            for vs, e2 in self.forkall(ts[1:], e1): yield (v,) + vs, e2

    # -------------------------------------------------------------- loops
    def relevant(self, L):
        return bool(self.want[L] or self.ex[L] or self.exitat[L] or self.items.get(L)) or any(self.relevant(c) for c in self.children.get(L, []))

    def body(self, L, env):
        """environments after the sub-loops and marked events of loop L (None: the function)"""
        todo = [(self.nid[c], 'loop', c, None) for c in self.children.get(L, []) if self.relevant(c)] + list(self.items.get(L, []))
        envs = [env]
        for pos, kind, x, f in sorted(todo, key=lambda y: y[0]):
            out = {}
            for en in envs:
                if kind == 'loop': rs = self.loop(x, en)
                elif kind == 'ghost':
                    rs = []
                    for v, e2 in self.forks(f, en):
                        if v and not e2[('ghost', x)]: e2 = dict(e2); e2[('ghost', x)] = True
                        rs.append(e2)
                else:
                    rs = []
                    for v, e2 in self.forks(f, en):
                        self.checked[x] += 1
                        if not v: self.bad.append((x, e2))
                        else: rs.append(e2)
                for r in rs: out[frozenset(r.items())] = r
            envs = list(out.values())
        return envs

    def loop(self, L, env):
        lp = self.loops[L]; out = []
        for v, e1 in self.forks(lp.pc, env):
            if not v:
                e2 = dict(e1)
                for p in self.ex[L]: e2[('exists', L, p)] = False
                out.append(e2); continue
            out += self.loop1(L, lp, e1)
        return out

    def head(self, L, p): return subst_st(p, lambda key: ('phi', L, key))
    def next_(self, L, p, which):
        lp = self.loops[L]
        def f(key):
            if key in lp.phis: return lp.phis[key][which]
            raise Giveup('not loop-carried: %s' % showloc(key))
        t = subst_st(p, f)
        return self.fsimp(t, L)
    def fsimp(self, t, L):
        nn = []
        for x in subterms(t):
            if x[0] == 'phi' and self.nonneg(x): nn.append(x)
        return Facts((), nn).simp(t)
    def nonneg(self, x):
        """a counter: starts non-negative, only grows"""
        L, key = x[1], x[2]
        if (L, key) in self.counter: return self.counter[(L, key)]
        self.counter[(L, key)] = False
        lp = self.loops[L]
        if key not in lp.phis: return False
        init, nxt = lp.phis[key]
        def up(t):
            if t == x: return True
            if t[0] == 'ite': return up(t[2]) and up(t[3])
            d = sub(t, x)
            return isnum(d) and d[1] >= 0
        def ini(t): return isnum(t) and t[1] >= 0 or t[0] == 'phi' and self.nonneg(t) or t[0] == 'in' and t[1][-1] == '#size'
        r = ini(init) and up(nxt)
        self.counter[(L, key)] = r
        return r

    def loop1(self, L, lp, env):
        st0 = self._stack; outs = []
        self._stack = st0
        P0 = list(self.want[L])
        starts = []
        for vs, e1 in self.forkall([self.next_(L, p, 0) for p in P0], env):
            starts.append((e1, vs))
        self._stack = st0 + [L]
        nid0 = self.nid[L]
        def local(a):
            if a[0] == 'ghost': return False
            for x in subterms(a):
                if x[0] in ('kap', 'phi', 'lo', 'kx', 'kn', 'exists') and (x[1] == L or self.inside(x[1], L)): return True
                if x[0] in ('ev', 'evout', 'throws', 'isa', 'undef') and isinstance(x[1], int) and x[1] > nid0: return True
            return False
        seen = set(); work = [(e1, vs, (False,) * len(self.ex[L])) for e1, vs in starts]
        lo = lambda p: subst_st(p, lambda key: ('lo', L, key))
        while work:
            en, vs, exs = work.pop()
            k = (frozenset(en.items()), vs, exs)
            if k in seen: continue
            seen.add(k)
            if len(seen) > 3000: raise Giveup('too many abstract states')
            h = dict(en)
            for p, v in zip(P0, vs): h[self.head(L, p)] = v
            def leave(e2, vals, exs):
                r = {a: v for a, v in e2.items() if not local(a)}
                for p, v in vals: r[p] = v
                for p, v in zip(self.ex[L], exs): r[('exists', L, p)] = v
                outs.append(r)
            heads = []
            if getattr(lp, 'post', False): heads = [(True, h)]
            else: heads = self.cforks(lp.cond, h)
            for c, e1 in heads:
                if not c: leave(e1, [(lo(p), v) for p, v in zip(P0, vs)], exs); continue
                for e2 in self.body(L, e1):
                    for xv, e3 in self.forkall(list(self.ex[L]), e2):
                        x2 = tuple(a or b for a, b in zip(exs, xv))
                        for q, e4 in self.forks(lp.exitcond, e3):
                            if q:
                                kx = {('kx', L): ('kap', L)}
                                for av, e5 in self.forkall([subst(a, kx) for a in self.exitat[L]], e4):
                                    leave(e5, list(zip(self.exitat[L], av)), x2)
                                continue
                            for nv, e5 in self.nexts([self.next_(L, p, 1) for p in P0], e4):
                                if getattr(lp, 'post', False):
                                    for cc, e6 in self.cforks(lp.cond, e5):
                                        r = {a: v for a, v in e6.items() if not local(a)}
                                        if cc: work.append((r, nv, x2))
                                        else: leave(e6, [(lo(p), v) for p, v in zip(P0, nv)], x2)
                                else:
                                    work.append(({a: v for a, v in e5.items() if not local(a)}, nv, x2))
        self._stack = st0
        # one outcome per distinct environment
        return list({frozenset(o.items()): o for o in outs}.values())

    def nexts(self, ts, env):
        self._innext = True
        try: r = list(self.forkall(ts, env))
        finally: self._innext = False
        return r
    def external(self, x):
        """a size that is whatever it was before the function was called when the loop is first entered"""
        while x[0] in ('phi', 'lo') and x[1] in self.loops and x[2] in self.loops[x[1]].phis: x = self.loops[x[1]].phis[x[2]][0]
        return x[0] == 'in' and x[1][-1] == '#size'

    def inside(self, l, L):
        while l is not None:
            if l == L: return True
            l = self.loops[l].parent if l in self.loops else None
        return False

    def solve(self):
        """environments at the end of the function"""
        for _ in range(60):
            self._stack = []; self.steps = 0; self.bad = []; self._innext = False
            for k in self.checked: self.checked[k] = 0
            env = {('ghost', g): False for g in self.ghosts}
            try: return self.body(None, env)
            except Restart: continue
        raise Giveup('predicate set does not stabilise')

def subst_st(p, f):
    m = {x: f(x[1]) for x in subterms(p) if x[0] == 'st'}
    return subst(p, m)
def subst_lo(a, L): return subst(a, {x: ('st', x[2]) for x in subterms(a) if x[0] == 'lo' and x[1] == L})
def empty_(x):
    from .expr import empty
    return empty(x)
