"""The type-checked program as exported from clang's AST."""
import json, os

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.errors = d['errors']
        self.types = d['types']
        self.fns = {f['id']: f for f in d['functions']}
        self.recs = {r['id']: r for r in d['records']}
        self.enums = {e['q']: e for e in d['enums']}
        self.globals = {g['id']: g for g in d['globals']}
        self.byq = {}
        for f in d['functions']: self.byq.setdefault(f['q'], []).append(f)
        self.recq = {}
        for r in d['records']: self.recq.setdefault(r['q'], []).append(r)
        self.fieldrec = {}
        for r in d['records']:
            for f in r.get('fields', []): self.fieldrec[f['id']] = (r, f)
        self.over = {}     # method id -> ids of methods it overrides
        self.overriders = {}
        self.methinfo = {}
        for r in d['records']:
            for m in r.get('methods', []):
                self.methinfo[m['id']] = (r, m)
                self.over[m['id']] = m.get('over', [])
                for o in m.get('over', []): self.overriders.setdefault(o, set()).add(m['id'])

    def ty(self, i): return self.types[i]

    def strip(self, i):
        """type index -> non-reference type record"""
        t = self.types[i]
        while t['k'] in ('ref', 'rref'): t = self.types[t['to']]
        return t

    def rec(self, q, targ=None):
        for r in self.recq.get(q, []):
            if 'fields' not in r: continue
            if targ is None or targ in r.get('targs', []): return r
        return None

    def methods(self, rec, name=None):
        out = []
        for f in self.fns.values():
            if f.get('cls') == rec['id'] and (name is None or f['n'] == name): out.append(f)
        return out

    def final_overrider(self, recid, methid):
        """definition of the method that a call through a `recid` object reaches"""
        seen = set()
        def roots(m):
            r = {m}
            for o in self.over.get(m, []): r |= roots(o)
            return r
        target = roots(methid)
        r = self.recs.get(recid)
        while r is not None:
            for m in r.get('methods', []):
                if m.get('virtual') and roots(m['id']) & target: return m['id']
            nxt = None
            for b in r.get('bases', []):
                if b['id'] in self.recs: nxt = self.recs[b['id']]
            r = nxt
        return methid

    def all_fields(self, rec):
        out = []
        for b in rec.get('bases', []):
            br = self.recs.get(b['id'])
            if br is not None and 'fields' in br: out += self.all_fields(br)
        return out + rec.get('fields', [])

    def derives(self, rec, q):
        if rec['q'] == q: return True
        return any(self.derives(self.recs[b['id']], q) for b in rec.get('bases', []) if b['id'] in self.recs) or any(b['q'] == q for b in rec.get('bases', []))

    def subclasses(self, q, targ=None):
        return [r for r in self.recs.values() if 'fields' in r and r['q'] != q and self.derives(r, q) and (targ is None or targ in r.get('targs', []) or not r.get('targs'))]

def walk(x, fn):
    """visits every node (dict with 'k'), children after their parent"""
    if isinstance(x, dict):
        if 'k' in x: 
            if fn(x) is False: return
        for v in x.values():
            if isinstance(v, (dict, list)): walk(v, fn)
    elif isinstance(x, list):
        for v in x: walk(v, fn)

def short(path):
    return path.replace('/repo/', '')
