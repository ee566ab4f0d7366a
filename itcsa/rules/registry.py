"""R01-R04: the registry of threads, shutdown, thread handles, lifetime of thread contexts."""
from .base import *
from .futures import Walk, bump
from .threads import ThreadRule, pushed
from ..models import has


class RegistryRule(Walk, ThreadRule):
    WALKS = ()

    def start(self, st):
        self.pending = []

    def which(self, a):
        """'ctx' or 'ids' if the container is one of the two tables of the registry"""
        f = self.eng.owner_field(*a)[0]
        return 'ctx' if f == self.roles.contexts else 'ids' if f == self.roles.idmap else None

    def reg_locked(self, st):
        return any(self.field(l) in self.roles.reg_locks for l in st.locks)

    def same(self, st, x, y):
        return x is not None and y is not None and (x == y or self.truth(st, mk_eq(x, y)) is True)

    def origin(self, v):
        """the location a value was read from"""
        if v[0] != 's':
            return None
        k = SYM.keys[v[1]]
        return (k[3], k[4]) if k[0] == 'R' else (k[1], k[2]) if k[0] == 'I' else None

    def entry_of(self, v):
        """the native id under which the table of ids gave this id"""
        a = self.origin(v)
        if a and OBJ.keys[a[0]][0] == 'nd':
            b = OBJ.keys[a[0]][1]
            own = self.eng.bufowner.get(b)
            if own and self.eng.owner_field(*own)[0] == self.roles.idmap and a[1] != OBJ.keys[a[0]][3]:
                return OBJ.keys[a[0]][2]
        return None

    def id_of(self, v):
        """the context whose id member the value was read from"""
        a = self.origin(v)
        return a[0] if a and self.eng.field(*a) == self.roles.tid else None


class R01(RegistryRule):
    id = 'R01'
    title = ('a context enters the registry in the critical section that looked up its native id, under the id found there or a '
             'fresh one, together with the entry native id -> id; both entries leave in one critical section; every id handed '
             'out and every thread local link belongs to the context registered for that native id')

    only = staticmethod(lambda f: not f.name.startswith(('e_pool', 'e_when')))

    # mon: R01g fresh id, R01t/R01n id and native id stored in a new context, R01c (context id inserted, its context),
    #      R01i native id inserted, R01h native id hit by an insertion, R01e id erased, R01f native id erased,
    #      R01k native id by which a fresh id was justified, R01l link made
    def on_access(self, st, o, off, size, write, atomic, val):
        f = self.eng.field(o, off)
        if not write or f is None and OBJ.keys[o][0] != 'T':
            return
        r = self.roles
        new = val[3] if write == 'rmw' and val else val
        if f == r.idgen:
            old = val[2] if write == 'rmw' and val else None
            if new is None:
                self.viol(st, 'the generator of ids becomes unknown', 'gen')
                return
            if old is None:
                b, c = split_add(new)
                a = self.origin(b) if b is not None else None
                ok = a == (o, off) and c >= 1 and self.reg_locked(st)
            else:
                b, c = split_add(new)
                b0, c0 = split_add(old)
                ok = b == b0 and c > c0 and c - c0 < 1 << 32
            if not ok:
                self.viol(st, 'the generator of ids may give an id twice', 'gen')
            self.n['id generated'] += 1
            st.mon['R01g'] = new
        elif f == r.tid and not self.eng.shared(st, o):
            st.mon['R01t'] = (('#o', o), new)
        elif f == r.native and not self.eng.shared(st, o):
            st.mon['R01n'] = (('#o', o), new)
        elif f in (r.tid, r.native) and self.eng.shared(st, o):
            self.viol(st, 'the identity of a registered context is changed', 'identity')
        elif OBJ.keys[o][0] == 'T' and off == 0:
            self.link(st, o, new)

    def on_map_insert(self, st, a, buf, key):
        w = self.which(a)
        if w and not self.reg_locked(st):
            self.viol(st, 'the registry is changed without its lock', 'lock')
        if w == 'ids':
            st.mon['R01i'] = key
        elif w == 'ctx':
            self.n['context registered'] += 1
            st.mon['R01c'] = key

    def on_map_hit(self, st, a, buf, key):
        if self.which(a) == 'ids':
            st.mon['R01h'] = key

    def on_map_erase(self, st, a, buf, key):
        w = self.which(a)
        if w and not self.reg_locked(st):
            self.viol(st, 'the registry is changed without its lock', 'lock')
        if w == 'ctx':
            self.n['context unregistered'] += 1
            st.mon['R01e'] = key
            if self.eng.root == 'e_unregister_this' and not self.same(st, key, st.mon.get('R01me')):
                self.viol(st, 'a thread unregisters another one', 'other')
            j = st.mon.get('R01j')
            if j is not None and not self.names(st, key, j):
                self.viol(st, 'a joined handle unregisters another thread', 'other')
        elif w == 'ids':
            # by the native id stored in the context, or by the id mapped to
            node = next((n for n in st.mem if OBJ.keys[n][:3] == ('nd', buf, key)), None)
            v = [x[0] for k, x in st.mem.get(node, EMPTY).items() if isinstance(k, int) and k > OBJ.keys[node][3]] \
                if node is not None else []
            st.mon['R01f'] = (key, v[0] if v else ())

    def on_erase_key(self, st, a, buf, key):
        if self.which(a) == 'ids':
            st.mon['R01f'] = (key, ())

    def on_map_clear(self, st, a, buf):
        if self.which(a):
            self.viol(st, 'the whole registry is dropped', 'clear')

    def on_find(self, st, a, buf, key):
        w = self.which(a)
        if not w:
            return
        if not self.reg_locked(st):
            self.viol(st, 'the registry is read without its lock', 'lock')
        if w == 'ctx':
            if self.eng.root == 'e_unregister_this':
                st.mon['R01u'] = key
            j = st.mon.get('R01j')
            if j is not None and self.names(st, key, j):
                st.mon['R01ju'] = True

    def on_loaded(self, st, o, off, v):
        if self.eng.field(o, off) == self.roles.tid and o in self.own(st):
            st.mon['R01me'] = v

    def on_unlock(self, st, loc):
        if self.field(loc) not in self.roles.reg_locks:
            return
        m = st.mon
        if m.pop('R01ju', None):
            m.pop('R01j')
        k = m.pop('R01c', None)
        ins, hit = m.pop('R01i', None), m.pop('R01h', None)
        t, n = m.pop('R01t', None), m.pop('R01n', None)
        g = m.pop('R01g', None)
        if k is not None:
            if not t or not self.same(st, t[1], k):
                self.viol(st, 'a context is registered under an id it does not have', 'id')
                return
            if not n or n[0] != t[0]:
                self.viol(st, 'a context is registered without its native id', 'native')
                return
            # the new context is what the entry refers to
            m['R01r'] = (t[0], k, n[1])
            if self.same(st, k, g):
                self.n['fresh id used'] += 1
                if ins is None or not self.same(st, ins, n[1]):
                    self.viol(st, 'a thread that may be registered already gets a second id', 'second')
                    return
            elif not self.same(st, self.entry_of(k), n[1]) and not (hit is None and ins is not None):
                self.viol(st, 'a context is registered under an id that is neither fresh nor that of its native id', 'stale')
                return
            v = self.mapped(st, n[1])
            if not (v is not None and self.same(st, v, k) or self.same(st, self.entry_of(k), n[1])):
                self.viol(st, 'a registered context is not found by its native id', 'entry')
        elif ins is not None or hit is not None and g is not None:
            self.viol(st, 'a native id is entered without its context', 'half')
        e, f = m.pop('R01e', None), m.pop('R01f', None)
        if e is not None:
            if f is None:
                self.viol(st, 'an unregistered thread is still found by its native id', 'left')
            else:
                a = self.origin(f[0])
                ok = a and self.eng.field(*a) == self.roles.native and \
                    self.same(st, self.registry_key(a[0]), e) or f[1] and self.same(st, f[1], e)
                if not ok:
                    self.viol(st, 'the native id of another thread is removed', 'wrong')
        elif f is not None:
            self.viol(st, 'a native id is removed but its context stays', 'stays')

    def mapped(self, st, native):
        """the id the table of ids currently holds for the native id"""
        for n, c in st.mem.items():
            k = OBJ.keys[n]
            if k[0] == 'nd' and k[2] == native:
                own = self.eng.bufowner.get(k[1])
                if own and self.eng.owner_field(*own)[0] == self.roles.idmap:
                    for off, x in c.items():
                        if isinstance(off, int) and off > k[3]:
                            return x[0]
        return None

    def registered(self, st, o, native):
        """is the context object the one registered for the native id?"""
        r = st.mon.get('R01r')
        if r and r[0] == ('#o', o):
            return self.same(st, r[2], native)
        k = self.registry_key(o)
        if k is None:
            return False
        # an id not yet given to anybody has no context
        return self.same(st, self.entry_of(k), native) or \
            k[0] == 't' and self.origin(split_add(k)[0] or UNDEF) is not None and \
            self.eng.field(*self.origin(split_add(k)[0])) == self.roles.idgen

    def link(self, st, o, v):
        if v is None or self.is_zero(st, v) is True:
            return
        a = self.eng.addr(v)
        self.n['context linked'] += 1
        st.mon['R01l'] = True
        if not a or not self.registered(st, a[0], sym(('self',))):
            self.viol(st, 'a thread is linked to a context not registered for it', 'link')

    def valid_id(self, st, v, native):
        """is it the id of the context registered for the native id?"""
        r = st.mon.get('R01r')
        if r and self.same(st, v, r[1]) and self.same(st, r[2], native):
            return True
        if self.same(st, self.entry_of(v), native):
            return True
        o = self.id_of(v)
        return o is not None and self.registered(st, o, native)

    # ---- handles
    def handle(self, st, a):
        """(native id, id) of a handle"""
        off = self.member(st, a[0], self.roles.handle_id)
        c = st.mem.get(a[0], EMPTY)
        return c.get(a[1], (None,))[0], c.get(off, (None,))[0] if off is not None else None

    def names(self, st, key, j):
        """is the key the id of the handle?"""
        return bool(j[1]) and self.same(st, key, j[1]) or self.origin(key) == j[0][1:]

    def on_detach(self, st, a):
        if not self.eng.root.startswith('e_thread_ctor'):
            return
        n, i = self.handle(st, a)
        self.n['handle made'] += 1
        if n is None or i is None or not self.valid_id(st, i, n):
            self.viol(st, 'a new handle does not carry the id registered for its thread', 'handle')

    def on_join(self, st, a):
        off = self.member(st, a[0], self.roles.handle_id) if a else None
        if off is not None:
            self.n['handle joined'] += 1
            if st.mon.get('R01j'):
                self.viol(st, 'a joined thread stays registered, its native id can be given to another one', 'joined')
            st.mon['R01j'] = (('#o', a[0], off), self.handle(st, a)[1] or ())
            st.mon.pop('R01ju', None)

    def on_end(self, st, kind, v):
        if kind != 'return':
            return
        r = self.eng.root
        if 'R01j' in st.mon:
            self.viol(st, 'a joined thread stays registered, its native id can be given to another one', 'joined')
        if r == 'e_register_thread':
            self.n['id returned'] += 1
            if not self.native_arg(st, v):
                self.viol(st, 'the id returned is not that of the context registered for the native id', 'ret')
        elif r in ('e_register_this', 'e_register_this_name'):
            if 'R01l' not in st.mon:
                self.viol(st, 'a thread that registers is not linked to its context', 'unlinked')
        elif r == 'e_unregister_this':
            self.n['thread unregisters'] += 1
            t = [x for _, x in self.tls_cells(st)]
            if not t or any(self.is_zero(st, x) is not True for x in t):
                self.viol(st, 'a thread that unregisters stays linked to its context', 'linked')
            u = st.mon.get('R01u')
            me = st.mon.get('R01me')
            if me is not None and not self.same(st, u, me):
                self.viol(st, 'a thread that unregisters does not look up its own id', 'self')
        elif not r.startswith('e_') and 'R01l' in st.mon:
            self.n['thread body ends'] += 1
            if any(self.is_zero(st, x) is not True for _, x in self.tls_cells(st)):
                self.viol(st, 'a thread ends while it is still registered', 'body')

    def native_arg(self, st, v):
        r = st.mon.get('R01r')
        cand = [r[2]] if r else []
        e = self.entry_of(v)
        if e is not None:
            cand.append(e)
        o = self.id_of(v)
        if o is not None:
            k = self.registry_key(o)
            e = self.entry_of(k) if k else None
            if e is not None:
                cand.append(e)
            elif k is not None and self.registered(st, o, UNDEF):
                return True
        return any(self.is_arg(c) and self.valid_id(st, v, c) for c in cand)

    def is_arg(self, v):
        if v[0] != 's':
            return False
        k = SYM.keys[v[1]]
        return k[0] == 'I' and OBJ.keys[k[1]][0] == 'arg'

    @classmethod
    def finish(cls, ctx):
        ctx.need('id generated', 3)
        ctx.need('context registered', 3)
        ctx.need('fresh id used', 3)
        ctx.need('context unregistered', 3)
        ctx.need('context linked', 3)
        ctx.need('handle made', 2)
        ctx.need('handle joined', 3)
        ctx.need('id returned', 2)
        ctx.need('thread unregisters', 2)
        ctx.need('thread body ends')


class R02(RegistryRule):
    id = 'R02'
    title = ('the final shutdown, and only that, asks every registered thread to exit before it waits, and returns zero exactly if '
             'the registry was seen empty in the last critical section; removing a context from a registry that may become '
             'empty notifies the waiting shutdown; unbalanced calls return a negative value')
    WALKS = ('R02w',)

    # ---- waking the waiter
    def on_map_erase(self, st, a, buf, key):
        if self.which(a) == 'ctx':
            self.n['context removed'] += 1
            st.mon['R02e'] = ('#o', buf)

    def on_map_clear(self, st, a, buf):
        if self.which(a) == 'ctx':
            st.mon['R02e'] = ('#o', buf)

    def on_notify(self, st, cv, every):
        if self.field(cv) == self.roles.cleanup:
            self.n['shutdown notified'] += 1
            st.mon['R02n'] = True
            st.mon.pop('R02p', None)

    def size(self, st, buf):
        c = st.mem.get(buf, EMPTY).get('S')
        return c[0] if c else None

    def on_lock(self, st, loc):
        if self.field(loc) in self.roles.reg_locks:
            st.mon.pop('R02n', None)

    def on_unlock(self, st, loc):
        if self.field(loc) not in self.roles.reg_locks:
            return
        e = st.mon.pop('R02e', None)
        if e and not st.mon.get('R02n'):
            s = self.size(st, e[1])
            if (s is None or self.is_zero(st, s) is not False) and not self.unwoken(st):
                st.mon['R02p'] = s if s is not None else UNDEF
        if self.eng.root == 'e_shutdown':
            self.looked(st)
            w = st.mon.get('R02k')
            if w and w[0] and self.truth(st, has(w[1][1], w[0])) is False:
                self.done(st)

    def unwoken(self, st):
        """may the registry have become empty with nobody notified since?"""
        s = st.mon.get('R02p')
        return s is not None and self.is_zero(st, s) is not False

    # ---- shutdown
    # mon: R02c counter read, R02z counter after the decrement, R02s size of the registry in the last critical section,
    #      R02k (key or (), table, done) thread being asked to exit, R02w walk over the list of threads,
    #      R02t the traversal of the table: 'on' or 'end', R02i key of the table being visited
    def looked(self, st):
        for b, own in list(self.eng.bufowner.items()):
            if b in st.mem and self.eng.owner_field(*own)[0] == self.roles.contexts:
                s = self.size(st, b)
                if s is not None:
                    st.mon['R02s'] = s

    def final(self, st):
        z = st.mon.get('R02z')
        return z is not None and self.is_zero(st, z) is True

    def effect(self, st, what):
        if self.eng.root == 'e_shutdown' and not self.final(st):
            self.viol(st, '%s by a shutdown that is not the final one' % what, 'effect')

    def on_loaded(self, st, o, off, v):
        if self.eng.root != 'e_shutdown':
            return
        if self.eng.field(o, off) == self.roles.init_count:
            st.mon['R02c'] = v
            return
        k = OBJ.keys[o]
        w = st.mon.get('R02w')
        l = st.mon.get('R02l')
        if l and not w and k[0] == 'el' and ('#o', k[1]) == l[0] and off == l[1][1] and self.is_zero(st, k[2]) is True:
            n = self.length(st, k[1])
            if n is not None:
                w = st.mon['R02w'] = (l[0], n, (ZERO,), l[1])
        if w and k[0] == 'el' and ('#o', k[1]) == w[0] and off == w[3][1] and k[2][0] != '@':
            if any(self.same(st, n, k[2]) for n in w[2]):
                self.settle(st)
                st.mon['R02w'] = w[:2] + (tuple(bump(self.eng, n) for n in w[2]), w[3])
                st.mon['R02k'] = (v, ('#o', o), False)

    def on_access(self, st, o, off, size, write, atomic, val):
        if self.eng.root != 'e_shutdown' or not write:
            return
        f = self.eng.field(o, off)
        if f == self.roles.init_count:
            new = val[3] if write == 'rmw' and val else val
            c = st.mon.get('R02c')
            self.n['counter changed'] += 1
            old = val[2] if write == 'rmw' and val else c
            b, d = split_add(new) if new is not None else (None, 0)
            b0, d0 = split_add(old) if old is not None else (None, 0)
            if c is None or self.is_zero(st, c) is not False:
                self.viol(st, 'shutdown without initialisation changes the counter', 'under')
            elif new is None or old is None or b != b0 or (d - d0) % (1 << 64) != (1 << 64) - 1:
                self.viol(st, 'shutdown does not take one initialisation back', 'count')
            st.mon['R02z'] = new if new is not None else UNDEF
        elif f == self.roles.exit:
            self.effect(st, 'a thread is asked to exit')
            k = st.mon.get('R02k')
            rk = self.registry_key(o)
            if k and k[0] and (rk is not None and self.same(st, rk, k[0]) or self.eng.addr(k[0]) == (o, 0)):
                self.done(st)
            i = st.mon.get('R02i')
            if i and rk is not None and self.same(st, rk, i):
                st.mon.pop('R02i')

    def length(self, st, b):
        """the size of the vector that owns the buffer"""
        fr = next(x for x in reversed(st.frames) if not isinstance(x, NFrame))
        for o, c in list(st.mem.items()):
            for off, x in c.items():
                if isinstance(off, int) and x[0][0] == 'p' and OBJ.keys[x[0][1]] == ('el', b, ZERO) and x[0][2] == 0 \
                        and off + 8 in c and off + 16 in c:
                    q = self.eng.sequence(st, o, off, fr, fr.ins())
                    if q and q[0] == b:
                        return q[1]
        return None

    def done(self, st):
        self.n['thread asked to exit'] += 1
        st.mon['R02k'] = st.mon['R02k'][:2] + (True,)

    def settle(self, st):
        k = st.mon.pop('R02k', None)
        if k and not k[2]:
            self.viol(st, 'a registered thread is not asked to exit', 'exit')

    def on_find(self, st, a, buf, key):
        k = st.mon.get('R02k')
        if k and self.which(a) == 'ctx' and self.same(st, key, k[0]):
            st.mon['R02k'] = (k[0], ('#o', buf), k[2])

    def on_iterate(self, st, a, buf, key):
        if self.eng.root == 'e_shutdown' and self.which(a) == 'ctx':
            self.n['table visited'] += 1
            self.visited(st)
            st.mon['R02i'] = key
            st.mon['R02t'] = True

    def visited(self, st):
        if st.mon.pop('R02i', None) is not None:
            self.viol(st, 'a registered thread is passed over when collecting the threads to stop', 'skip')

    def on_vec(self, st, o, base, old, new):
        if self.eng.root != 'e_shutdown' or not pushed(old, new):
            return
        i = st.mon.get('R02i')
        if i is None:
            return
        e = self.eng.elem(new[0], old[1])
        for off, x in st.mem.get(e, EMPTY).items():
            if not isinstance(off, int):
                continue
            a = self.eng.addr(x[0])
            c = self.id_of(x[0])                    # a context, or its id: the key it is registered under (R01)
            c = c if c is not None else a[0] if a else None
            if self.same(st, x[0], i) or c is not None and self.same(st, self.registry_key(c), i):
                self.n['thread collected'] += 1
                st.mon.pop('R02i')
                st.mon['R02l'] = (('#o', new[0]), ('at', off))
                return

    def on_block(self, st, what, cv, loc, timed):
        if self.eng.root != 'e_shutdown' or self.field(cv) != self.roles.cleanup:
            return
        self.n['shutdown waits'] += 1
        self.effect(st, 'waiting for threads')
        self.asked(st)

    def asked(self, st):
        if 'R02a' in st.mon:
            return
        st.mon['R02a'] = True
        self.visited(st)
        self.settle(st)
        w = st.mon.get('R02w')
        l = st.mon.get('R02l')
        if not w and l:
            n = self.length(st, l[0][1])
            if n is None or self.is_zero(st, n) is not True:
                self.viol(st, 'not every registered thread is asked to exit', 'all')
        if w:
            if not any(self.same(st, n, w[1]) or self.truth(st, mk_ult(n, w[1])) is False for n in w[2]):
                self.viol(st, 'not every registered thread is asked to exit', 'all')

    def on_end(self, st, kind, v):
        if self.unwoken(st) and kind in ('return', 'unwind'):
            self.viol(st, 'the last thread may leave the registry without waking shutdown', 'notify')
        if self.eng.root != 'e_shutdown' or kind != 'return':
            return
        neg_ = v[0] == 'i' and v[1] & 0x80000000
        self.n['shutdown ends', 'final' if self.final(st) else 'refused'] += 1
        if not self.final(st):
            if not neg_:
                self.viol(st, 'a shutdown that is not the final one does not report it', 'refuse')
            return
        s = st.mon.get('R02s')
        if neg_:
            self.viol(st, 'the final shutdown reports an unbalanced call', 'negative')
        elif s is None:
            self.viol(st, 'shutdown ends without looking at the registry', 'look')
        elif v == ZERO:
            if self.is_zero(st, s) is not True:
                self.viol(st, 'shutdown reports success although threads may be registered', 'success')
        elif self.is_zero(st, s) is not False and not (v == s or v[0] == 't' and s in v):
            self.viol(st, 'shutdown reports threads although none may be registered', 'failure')

    @classmethod
    def finish(cls, ctx):
        ctx.need('context removed', 3)
        ctx.need('shutdown notified', 3)
        ctx.need('counter changed')
        ctx.need('table visited')
        ctx.need('thread asked to exit')
        ctx.need('shutdown waits')
        for k in ('final', 'refused'):
            if not ctx.n['shutdown ends', k]:
                ctx.need('shutdown that is ' + k)


class R03(RegistryRule):
    id = 'R03'
    title = ('a handle is joined only after its thread, looked up by the id of the handle, was asked to exit or found to be '
             'gone; joining, destroying and assigning over a joinable handle join it once; id and native id travel together')
    only = staticmethod(lambda f: f.name.startswith(('e_thread', 'e_make')) or not f.name.startswith('e_'))

    # mon: R03k (key, table) looked up last, R03x id of the thread asked to exit or gone, R03e (id, exit flag read),
    #      R03j number of joins of the handle given
    def start(self, st):
        self.pending = []
        self.arg = [OBJ(('arg', i, False, '')) for i in (0, 1)]
        st.mon['R03n'] = sym(('I', self.arg[0], 0))

    def handle_id(self, st, o):
        off = self.member(st, o, self.roles.handle_id)
        return off

    def names(self, st, key, o):
        """is the key the id of the handle?"""
        off = self.handle_id(st, o)
        if off is None:
            return False
        c = st.mem.get(o, EMPTY).get(off)
        return bool(c) and self.same(st, key, c[0]) or self.origin(key) == (o, off) and not c

    def on_find(self, st, a, buf, key):
        if self.which(a) == 'ctx':
            st.mon['R03k'] = (key, ('#o', buf))

    def on_unlock(self, st, loc):
        if self.field(loc) not in self.roles.reg_locks:
            return
        k = st.mon.pop('R03k', None)
        if k and self.truth(st, has(k[1][1], k[0])) is False:
            st.mon['R03x'] = k[0]

    def on_loaded(self, st, o, off, v):
        if self.eng.field(o, off) == self.roles.exit:
            k = self.registry_key(o)
            if k is not None:
                st.mon['R03e'] = (k, v)

    def on_access(self, st, o, off, size, write, atomic, val):
        if not write or self.eng.field(o, off) != self.roles.exit or not self.eng.shared(st, o):
            return
        k = self.registry_key(o)
        if k is None:
            return
        self.n['exit requested'] += 1
        if self.eng.root.startswith('e_thread') and not self.eng.root.startswith('e_thread_ctor') \
                and not any(self.names(st, k, o) for o in self.arg + self.handles(st)):
            self.viol(st, 'a handle asks another thread to exit', 'other')
        st.mon['R03x'] = k

    def handles(self, st):
        return [o for o in st.mem if OBJ.keys[o][0] == 'A' and self.handle_id(st, o) is not None]

    def on_join(self, st, a):
        if not a or self.handle_id(st, a[0]) is None:
            return
        self.n['handle joined'] += 1
        x, e = st.mon.pop('R03x', None), st.mon.pop('R03e', None)
        if not (x is not None and self.names(st, x, a[0])) and \
                not (e and self.names(st, e[0], a[0]) and self.is_zero(st, e[1]) is False):
            self.viol(st, 'a thread is joined that may never have been asked to exit', 'exit')
        st.mon['R03j'] = min(st.mon.get('R03j', 0) + 1, 2)

    def on_detach(self, st, a):
        fr = next(f for f in reversed(st.frames) if not isinstance(f, NFrame))
        if fr.fn.repo:
            self.viol(st, 'the library abandons a running thread', 'detach')
        elif self.eng.root == 'e_thread_move':
            self.n['handle moved'] += 1
            off = self.handle_id(st, a[0])
            t = self.arg[0]
            n, i = self.now(st, *a), self.now(st, a[0], off)
            if not self.first(st, n, t, 0) or not self.first(st, i, t, self.handle_id(st, t)):
                self.viol(st, 'a moved handle does not carry the thread and its id', 'move')
            if self.is_zero(st, self.now(st, t)) is not True:
                self.viol(st, 'a handle moved from stays joinable', 'from')

    def first(self, st, v, o, off):
        """is it the value the location had at the start?"""
        return v[0] == 's' and SYM.keys[v[1]] == ('I', o, off) or self.same(st, v, sym(('I', o, off)))

    def now(self, st, o, off=0):
        return self.peek(st, o, off)

    def on_terminate(self, st):
        fr = next(f for f in reversed(st.frames) if not isinstance(f, NFrame))
        if fr.fn.cls == 'std::thread':
            self.viol(st, 'a joinable handle is destroyed or overwritten', 'joinable')

    def on_end(self, st, kind, v):
        r = self.eng.root
        if kind != 'return' or not r.startswith('e_thread'):
            return
        j = st.mon.get('R03j', 0)
        a, b = self.arg
        was = self.is_zero(st, st.mon['R03n'])
        if r == 'e_thread_join':
            self.n['join returns'] += 1
            if j != 1:
                self.viol(st, 'joining a handle does not join its thread once', 'once')
        elif r in ('e_thread_dtor', 'e_thread_assign'):
            self.n['handle given up', 'idle' if was is True else 'running'] += 1
            if was is not True and j != 1:
                self.viol(st, 'a handle is given up without joining its thread once', 'given')
            if was is True and j:
                self.viol(st, 'a handle without thread is joined', 'empty')
        if r == 'e_thread_assign':
            if not self.first(st, self.now(st, a), b, 0) or \
                    not self.first(st, self.now(st, a, self.handle_id(st, a)), b, self.handle_id(st, b)):
                self.viol(st, 'an assigned handle does not carry the thread and its id', 'assign')
            if self.is_zero(st, self.now(st, b)) is not True:
                self.viol(st, 'a handle moved from stays joinable', 'from')
        elif r == 'e_thread_swap':
            self.n['handles swapped'] += 1
            i = self.handle_id(st, a)
            for x, y in ((a, b), (b, a)):
                if not self.first(st, self.now(st, x), y, 0) or not self.first(st, self.now(st, x, i), y, i):
                    self.viol(st, 'swapping handles separates a thread from its id', 'swap')
            if j:
                self.viol(st, 'swapping handles joins', 'swap')

    @classmethod
    def finish(cls, ctx):
        ctx.need('handle joined', 3)
        ctx.need('exit requested', 3)
        ctx.need('join returns')
        ctx.need('handle moved')
        ctx.need('handles swapped')
        for k in ('idle', 'running'):
            if not ctx.n['handle given up', k]:
                ctx.need('handle given up ' + k)


class R04(RegistryRule):
    id = 'R04'
    title = ('a context found in the registry is touched only under the lock of the registry while it is registered, or while '
             'a reference taken to it is held; the last reference goes with neither that lock nor a lock of the context held')

    # mon: R04 references held by this thread: ((context, count),...), R04e ids removed from the registry here,
    #      R04d ids of contexts that may be destroyed
    def count(self, st, o):
        return next((c for x, c in st.mon.get('R04', ()) if x == ('#o', o)), 0)

    def adjust(self, st, o, d):
        n = self.count(st, o) + d
        st.mon['R04'] = tuple(e for e in st.mon.get('R04', ()) if e[0] != ('#o', o)) + \
            (((('#o', o), n),) if n else ())

    def found(self, pi):
        """the registered context a control block belongs to"""
        if pi[0] == 't' and pi[1] == 'pi':
            a = self.eng.addr(pi[2])
            if a and self.registry_key(a[0]) is not None:
                return a[0]
        return None

    def gone(self, st, o):
        k = self.registry_key(o)
        return any(self.same(st, k, e) for e in st.mon.get('R04e', ()))

    def local(self, st, o):
        return self.count(st, o) + (1 if self.gone(st, o) else 0)

    def on_retain(self, st, pi):
        o = self.found(pi)
        if o is None:
            return
        self.n['reference taken'] += 1
        self.check(st, o)
        self.adjust(st, o, 1)

    def on_release(self, st, pi):
        o = self.found(pi)
        if o is None:
            return
        self.adjust(st, o, -1)
        if self.local(st, o) >= 1 or self.reg_locked(st) and not self.gone(st, o):
            return
        self.n['last reference given up'] += 1
        self.adjust(st, o, -self.count(st, o))
        k = self.registry_key(o)
        if any(l[0] == o for l in st.locks) or self.ctx_lock(st, o):
            self.viol(st, 'a context may be destroyed while its own lock is held', 'own')
        elif self.reg_locked(st):
            self.viol(st, 'a context may be destroyed while the lock of the registry is held', 'reg')
        if self.gone(st, o):
            st.mon['R04e'] = tuple(e for e in st.mon['R04e'] if not self.same(st, e, k))
            a = self.origin(k)
            if o in self.own(st) or a and self.eng.field(*a) == self.roles.tid:
                st.mon['R04d'] = (tuple(e for e in st.mon.get('R04d', ()) if e != k) + (k,))[-2:]

    def on_map_erase(self, st, a, buf, key):
        if self.which(a) == 'ctx':
            self.n['context unregistered'] += 1
            st.mon['R04e'] = (tuple(e for e in st.mon.get('R04e', ()) if e != key) + (key,))[-2:]

    def on_map_insert(self, st, a, buf, key):
        if self.which(a) == 'ctx':
            for k in ('R04e', 'R04d'):
                if k in st.mon:
                    st.mon[k] = tuple(e for e in st.mon[k] if not self.same(st, e, key))

    def check(self, st, o):
        if self.reg_locked(st) and not self.gone(st, o) or self.local(st, o) >= 1:
            return
        # nobody but the thread itself, or who joined it, removes its context
        if o in self.own(st) and not self.gone(st, o) and \
                not any(self.same(st, self.registry_key(o), e) for e in st.mon.get('R04d', ())):
            return
        self.viol(st, 'a context found in the registry is used although it may be destroyed', 'use')

    def use(self, st, o):
        if OBJ.keys[o][0] != '*':
            return
        if self.registry_key(o) is not None:
            self.n['context used'] += 1
            self.check(st, o)
        else:
            for e in st.mon.get('R04d', ()):
                a = self.origin(e)
                if a and a[0] == o and self.eng.field(*a) == self.roles.tid:
                    self.viol(st, 'a thread uses its context after it was unregistered', 'self')

    def on_access(self, st, o, off, size, write, atomic, val):
        b = base_obj(o)
        if self.is_ctx(o, self.eng.field(o, off)):
            self.use(st, o)
        elif b != o:
            own = self.eng.bufowner.get(b)
            if own and OBJ.keys[o][0] == 'el' and self.is_ctx(own[0], self.eng.field(*own)) and self.eng.shared(st, b):
                self.use(st, own[0])

    def on_lock(self, st, loc):
        if self.field(loc) in self.roles.ctx_locks:
            self.use(st, loc[0])

    def on_unlock(self, st, loc):
        self.on_lock(st, loc)

    def on_notify(self, st, cv, every):
        if cv and self.is_ctx(cv[0], self.field(cv)):
            self.use(st, cv[0])

    def on_uaf(self, st, *a):
        self.viol(st, 'freed memory is used', 'uaf')

    @classmethod
    def finish(cls, ctx):
        ctx.need('context used', 20)
        ctx.need('reference taken', 10)
        ctx.need('last reference given up', 10)
        ctx.need('context unregistered', 3)


RULES = [R01, R02, R03, R04]
