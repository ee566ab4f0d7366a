"""development aid: dbg.py ROOT RULE [MODE] stops at the first violation and shows the state"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import two
from itcsa.engine import OBJ, SYM
from itcsa.rules import RULES
def show(v, d=0):
    if isinstance(v, tuple) and v and v[0] == 's' and d < 4:
        k = SYM.keys[v[1]]
        return 's%d%s' % (v[1], tuple(show(x, d+1) if isinstance(x, tuple) else ('o%d' % x if i == {'I':1,'R':3}.get(k[0]) else x) for i, x in enumerate(k)))
    if isinstance(v, tuple) and v and v[0] == 'p':
        return '&o%d+%s' % (v[1], v[2])
    if isinstance(v, tuple):
        return '(%s)' % ' '.join(str(show(x, d+1)) for x in v)
    return v
def objs(st, eng):
    for o, c in st.mem.items():
        k = OBJ.keys[o]
        print(' o%d %s' % (o, show(k)))
        for off, x in c.items():
            print('     +%s %s = %s' % (off, eng.field(o, off) if isinstance(off, int) else '', show(x[0]) if isinstance(x[0], tuple) else x))
if __name__ == '__main__':
    p, roles, w = two.setup()
    R = RULES[sys.argv[2]]
    class D(R):
        seen = 0
        def viol(self, st, msg, key=None):
            n = len(self.eng.violations)
            super().viol(st, msg, key)
            if D.seen: return
            D.seen = 1
            v = list(self.eng.violations.values())[-1]
            print(v['message'], v['where'], *v['stack'], *v['trace'][-60:], sep='\n   ')
            objs(st, self.eng)
            print('FACTS', *['%s = %s' % (show(k), t) for k, t in st.facts.items()], sep='\n   ')
            print('LOCKS', st.locks)
            print('MON', *['%s = %s' % (k, show(x)) for k, x in st.mon.items()], sep='\n   ')
    r = D(roles)
    if len(sys.argv) > 3: r.mode = sys.argv[3]
    eng = two.engine.Engine(p, [two.Invariants(roles), r], w)
    name = [n for n in p.fns if n == sys.argv[1]] or [n for n in p.fns if sys.argv[1] in n and not p.fns[n].decl]
    fn = p.fns[name[0]]
    eng.root = fn.name
    st = two.roots.root_state(eng, fn, not fn.name.startswith('e_'))
    for x in eng.rules: x.start(st)
    if os.environ.get('STUCK'):
        orig = eng.run
        def run(s):
            try:
                orig(s)
            except two.CheckError:
                print(len(str(s.mon)), len(s.facts), len(s.mem))
                print('MON', *['%s = %s' % (k, show(x)) for k, x in s.mon.items()], sep='\n   ')
                print('FACTS', *['%s = %s' % (show(k), t) for k, t in s.facts.items()], sep='\n   ')
                raise
        eng.run = run
    eng.explore(st, fn.name)
    print(eng.stats, r.n, sorted({v['message'] for v in eng.violations.values()}))
