import sys
sys.path.insert(0,'/verif')
from engine.prog import Prog
from engine.eval import Engine, State
from engine.term import *
import engine.term as T
p=Prog('/verif/build/t.json')
def find(q, targ=None):
    out=[]
    for f in p.byq.get(q,[]):
        r=p.recs.get(f.get('cls'))
        if targ and r is not None and r.get('targs') and targ not in r.get('targs',[]): continue
        out.append(f)
    return out
if __name__=='__main__':
    q=sys.argv[1]; targ=sys.argv[2] if len(sys.argv)>2 else 'double'
    for f in find(q,targ):
        print('=====',f['q'],f['line'])
        e=Engine(p)
        r=p.recs.get(f.get('cls'))
        s,v=e.run(f,this=('this',),dyn=r['id'] if r else None)
        for x in e.log:
            if x.kind!='decl': print(x)
        for l in e.loops.values(): print(l)
        print('ret',show(v)); 
        for t in e.throws: print('throw',t[1],show(t[0].pc))
        if s: 
            for k,w in s.store.items():
                if k[0]=='this' or (isinstance(k[0],tuple) and k[0][0] in('P','static')): print('   ',showloc(k),'=',show(w))
            print('asm',[show(a) for a in s.asm])
        print(e.warn)
