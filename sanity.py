import sys
sys.path.insert(0,'/verif')
from engine.prog import Prog
from engine.eval import Engine, Giveup
from engine.term import *
import traceback, time
sys.setrecursionlimit(20000)
p=Prog('/verif/build/t.json')
calls={}
for f in sorted(p.fns.values(), key=lambda f:(f['file'],f['line'])):
    if not f['q'].startswith('hart') : continue
    r=p.recs.get(f.get('cls'))
    if r is not None and 'float' in r.get('targs',[]): continue
    if r is not None and r.get('lambda'): continue
    if not f.get('body'): continue
    t=time.time()
    e=Engine(p, adt_buf=(r is None or r['q']!='hart::AudioBuffer'))
    try:
        s,v=e.run(f,this=('this',) if r else None,dyn=r['id'] if r else None)
    except Giveup as g:
        print('GIVEUP',f['q'],f['file'].split('/')[-1],f['line'],g)
    except Exception as x:
        print('CRASH',f['q'],f['file'].split('/')[-1],f['line'],repr(x)); traceback.print_exc(limit=-3)
    t=time.time()-t
    if t>1: print('SLOW',f['q'],round(t,2))
    for w in e.warn: print('WARN',f['q'],w)
    for x in e.log:
        if x.kind=='call': calls.setdefault(x.q,set()).add(f['q'])
for q in sorted(calls): print('call',q,sorted(calls[q])[:3])
