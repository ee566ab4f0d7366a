"""T04 user code outside locks, T05 lock order, T06 lock discipline."""
from .base import *


class T04(Rule):
    """no user code while a library lock is held"""
    id = 'T04'
    title = 'at every point where user code can run (call, destruction, copy of a callable) no library lock is held'

    def start(self, st):
        names = [n for n, g in self.eng.prog.globals.items() if g.get('tls')]
        st.mon['T04'] = tuple(sym(('I', OBJ(('T', n)), 0)) for n in sorted(names))

    def unregistered(self, st):
        """the calling thread was not registered when the call was made"""
        return any(v == ZERO for v in st.mon['T04'])

    def in_task(self, st):
        return any(not isinstance(f, NFrame) and f.fn.cls.startswith('std::_Function') for f in st.frames)

    def on_user(self, st, kind, what):
        self.n['user code', kind] += 1
        ls = self.lib_locks(st)
        if ls:
            self.n['user code under a lock of the caller', kind] += 1
        if not ls:
            return
        if what.startswith('user::val') and (kind != 'destroy' or not self.in_task(st)):
            return       # values are not callables
        if kind in ('construct', 'assign'):
            return
        if kind == 'call' and what == 'stored task' and self.unregistered(st):
            return       # misuse diagnostics of unregistered threads
        self.viol(st, '%s of %s while holding %s' % (kind, what, ', '.join(f for l, f in ls)), (kind, what, ls[0][1]))

    def slot(self, pi, ls):
        """the slot of an input in the context of a combinator, overwritten by a continuation: it is empty or shares the
        state the continuation was attached to (W01, W02), which goes on living in the slot"""
        if self.eng.root.startswith('e_') or pi[0] != 't' or pi[1] != 'pi' or pi[2][0] != 's':
            return False
        k = SYM.keys[pi[2][1]]
        o, off = (k[3], k[4]) if k[0] == 'R' else (k[1], k[2]) if k[0] == 'I' else (None, None)
        if o is None:
            return False
        if OBJ.keys[o][0] == 'el':
            own = self.eng.bufowner.get(OBJ.keys[o][1])
            if not own:
                return False
            o, off = own
        return any(l[0] == o and self.roles.rec(f) in self.roles.get('combs', ()) for l, f in ls)

    def on_destroy(self, st, t, pi, definite):
        if not has_user_code(self.eng.prog, t):
            return
        self.n['possible destruction of shared work'] += 1
        ls = self.lib_locks(st)
        if ls and self.slot(pi, ls):
            self.n['slot overwritten by the same future'] += 1
            return
        if ls and not definite and not self.unregistered(st):
            self.viol(st, 'the last reference to %s, which owns user callables, may go while holding %s'
                      % (strip_targs(t), ', '.join(f for l, f in ls)), (strip_targs(t), ls[0][1]))

    @classmethod
    def finish(cls, ctx):
        ctx.need('user code', 40)
        ctx.need('possible destruction of shared work', 5)


class T05(Rule):
    id = 'T05'
    title = 'lock acquisition order is acyclic, no lock is taken twice, nobody blocks holding another lock'

    def on_lock(self, st, loc):
        f = self.field(loc)
        if not f:
            return
        self.n['lock'] += 1
        for l, g in self.lib_locks(st):
            self.n['nested lock'] += 1
            self.data.append((g, f, self.eng.where(st), self.eng.root))
            if g == f and l != loc:
                self.viol(st, 'two locks of the same kind %s are nested' % f, ('nest', f))
        for l in st.locks:
            if self.eng.field(*l) is None:
                continue

    def on_relock(self, st, loc):
        f = self.field(loc)
        self.viol(st, '%s is locked again by the thread holding it' % (f or 'the lock'), ('relock', f))

    def on_block(self, st, what, cv, loc, timed):
        self.n['block'] += 1
        for l, f in self.lib_locks(st):
            if l != loc:
                self.viol(st, 'the thread blocks (%s) while holding %s' % (what, f), ('block', what, f))

    @classmethod
    def finish(cls, ctx):
        ctx.need('lock', 100)
        ctx.need('nested lock', 5)
        ctx.need('block', 10)
        edges = {}
        for g, f, w, r in ctx.data:
            edges.setdefault((g, f), (w, r))
        adj = {}
        for g, f in edges:
            adj.setdefault(g, set()).add(f)
        ctx.extra['lock order'] = sorted('%s -> %s (%s)' % (g, f, w[0]) for (g, f), w in edges.items())

        def path(a, b, seen):
            if a == b:
                return [a]
            for c in sorted(adj.get(a, ())):
                if c not in seen:
                    seen.add(c)
                    p = path(c, b, seen)
                    if p:
                        return [a] + p
            return None
        done = set()
        for (g, f), (w, r) in sorted(edges.items()):
            if g == f:
                continue
            p = path(f, g, {f})
            if p:
                cyc = frozenset(p)
                if cyc in done:
                    continue
                done.add(cyc)
                ctx.violate('lock order cycle: ' + ' -> '.join([g] + p), where=w, entry=r,
                            trace=['%s while holding %s @ %s' % (b, a, edges[a, b][0]) for a, b in zip([g] + p, p)])


class T06(Rule):
    id = 'T06'
    title = ('every non-atomic member that is written after its object became reachable for other threads is, in all accesses '
             'from then on, accessed with one lock of the same object held')

    def start(self, st):
        r = self.roles
        self.kept = {r.ctx, r.reg, r.state, r.sem, r.pool}

    def on_access(self, st, o, off, size, write, atomic, val):
        f, oo, of = self.eng.owner_field(o, off)
        if f is None or atomic or not self.eng.shared(st, oo) or not self.eng.shared(st, base_obj(o)):
            return
        if not self.eng.guards(oo, of):
            return
        # a combination of futures belongs to the thread that makes it, its continuations run there (T09)
        if OBJ.keys[base_obj(oo)][0] == 'H' and self.roles.rec(f) not in self.kept:
            return
        if self.dying(st, oo):
            return
        ls = tuple(sorted({self.eng.field(*l) for l in st.locks if l[0] == oo and self.eng.field(*l)}))
        self.n['access', f, 'write' if write else 'read', ls] += 1
        k = (f, bool(write), ls, self.eng.where(st))
        if k not in self.data:
            self.data.append(k)

    def dying(self, st, oo):
        """are the members of the object being destroyed by its destructor?"""
        for fr in st.frames:
            if isinstance(fr, NFrame) or not fr.fn.repo or not fr.fn.base.startswith('~'):
                continue
            a = self.eng.addr(fr.args[0]) if fr.args else None
            ins = fr.ins()
            if a and a[0] == oo and ins[0] in ('call', 'invoke'):
                cv = self.eng.val(fr, ins[4])
                g = self.eng.prog.fns.get(cv[1]) if cv[0] == 'f' else None
                if g and g.base.startswith('~'):
                    return True
        return False

    @classmethod
    def finish(cls, ctx):
        fields = {}
        for f, w, ls, where in ctx.data:
            fields.setdefault(f, {}).setdefault((w, ls), set()).add(where)
        n = 0
        for f, acc in sorted(fields.items()):
            if not any(w for w, ls in acc):
                continue
            n += 1
            ctx.n['member written while shared', f] += 1
            sets = [set(ls) for w, ls in acc]
            if set.intersection(*sets):
                continue
            c = Counter()
            for (w, ls), sites in acc.items():
                for l in ls:
                    c[l] += len(sites)
            best = c.most_common(1)[0][0] if c else None
            for (w, ls), sites in sorted(acc.items(), key=str):
                if best not in ls:
                    for where in sorted(sites):
                        ctx.violate('%s is %s without holding %s' % (f, 'written' if w else 'read', best or 'any lock'), where)
        ctx.need('access', 50)
        if n < 12:
            ctx.need('members written while shared', 12)


RULES = [T04, T05, T06]
