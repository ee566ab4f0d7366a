"""development aid: explores one root with the given rules: two.py ROOT [Inv] RULE..."""
import os, pickle, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..'))
from itcsa import program, engine, roots, run
from itcsa.roles import Roles
from itcsa.rules.base import *
from itcsa.rules import RULES
from itcsa.engine import *
def setup(cache=os.path.join(program.BUILD, 'two.pickle')):
    p=program.load()
    h=program.tree_hash()
    try:
        hh,sv=pickle.load(open(cache,'rb'))
        if hh!=h: raise Exception
    except Exception:
        sv=run.explore(p,lambda:([Survey()],None))
        pickle.dump((h,sv),open(cache,'wb'))
    w=set()
    for r in sv: w|=r['written']
    return p,Roles(p,sv),w
if __name__=='__main__':
    p,roles,w=setup()
    rn=sys.argv[2:]
    rules=[]
    for x in rn:
        rules.append(Invariants(roles) if x=='Inv' else RULES[x](roles))
    eng=engine.Engine(p,rules,w)
    name=[n for n in p.fns if n==sys.argv[1]] or [n for n in p.fns if sys.argv[1] in n]
    fn=p.fns[name[0]]
    st=roots.root_state(eng,fn,not fn.name.startswith('e_'))
    for r in rules: r.start(st)
    try:
        eng.explore(st,fn.name)
    except RecursionError as e:
        tb=e.__traceback__
        fr=[]
        while tb: fr.append(tb.tb_frame); tb=tb.tb_next
        n=0
        for f in fr:
            if f.f_code.co_name in('so','ss'):
                print(f.f_code.co_name, OBJ.keys[f.f_locals['o']] if f.f_code.co_name=='so' else SYM.keys[f.f_locals['k']]); n+=1
                if n>24: break
        for f in fr[:40]: print(f.f_code.co_name,f.f_lineno)
    print(eng.stats)
    for r in rules: print(r.id, r.n)
    for v in eng.violations.values(): print(v['message'],v['where'],v['stack'],*v['trace'][-40:],sep='\n   ')
