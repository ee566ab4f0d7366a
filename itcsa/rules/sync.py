"""S01-S03, M01: waiters of a condition variable, and the mutex built on it."""
from .base import *
from .futures import Walk, entry, bump
from .threads import ThreadRule, pushed

WAITS = ('cv_wait', 'sem_wait', 'future_wait', 'sfuture_wait', 'mutex_lock')


class WaiterRule(Walk, ThreadRule):
    WALKS = ()

    def waiters_buf(self, o):
        """(buffer, index) if the object is an element of a list of waiters"""
        k = OBJ.keys[o]
        if k[0] != 'el' or k[2][0] == '@':
            return None
        b = k[1]
        own = self.eng.bufowner.get(b)
        if own and self.eng.field(*own) == self.roles.waiters:
            return b, k[2]
        return None

    def origin(self, v):
        """the location a value was read from, None if it is no plain read"""
        if v[0] != 's':
            return None
        k = SYM.keys[v[1]]
        if k[0] == 'R':
            return k[3], k[4]
        if k[0] == 'I':
            return k[1], k[2]
        return None

    def waiter_of(self, v, off):
        """the waiter (an element of a list) whose member at the offset the value is"""
        a = self.origin(v)
        if a and a[1] == off and self.waiters_buf(a[0]):
            return a[0]
        return None

    def marked(self, o, off):
        """the waiter whose mark lives at the location"""
        k = OBJ.keys[o]
        return self.waiter_of(k[1], self.roles.waiter_token) if k[0] == '*' and off == 0 else None

    def own_id(self, st, v):
        """is it the id of the calling thread?"""
        for o in self.own(st):
            off = self.member(st, o, self.roles.tid)
            c = st.mem.get(o, EMPTY).get(off)
            if c and (c[0] == v or self.truth(st, mk_eq(c[0], v)) is True):
                return True
        return False

    def outer(self, loc):
        """is it a lock the caller of a wait holds?"""
        f = self.field(loc)
        r = self.roles
        return f not in r.ctx_locks and f not in r.sem_locks and f not in r.reg_locks

    def entered(self, st, o, base, old, new):
        """the element added to the list of waiters by this change, or None"""
        if self.eng.field(o, base) == self.roles.waiters and pushed(old, new):
            return self.eng.elem(new[0], old[1])
        return None


class S01(WaiterRule):
    id = 'S01'
    title = ('when a wait gives up the lock of its caller its own entry is in the list of waiters; a wait blocks again only after '
             'reading its own mark as unset; a notifier sets the mark of a waiter before it wakes that thread')

    def start(self, st):
        self.pending = []
        self.waits = entry(self.eng, *WAITS)
        self.given = self.eng.root.startswith(('e_cv_wait', 'e_sem_wait'))

    # ---- waiting: mon['S01t'] = the mark, mon['S01'] how the outer lock was given up
    def on_vec(self, st, o, base, old, new):
        e = self.entered(st, o, base, old, new)
        if e is not None and self.waits:
            c = st.mem.get(e, EMPTY).get(self.roles.waiter_token)
            i = st.mem.get(e, EMPTY).get(self.roles.waiter_id)
            self.n['waiter entered'] += 1
            if not any(self.field(l) in self.roles.sem_locks for l in st.locks):
                self.viol(st, 'the list of waiters is changed without its lock', 'lock')
            if not i or not self.own_id(st, i[0]) and not any(self.is_zero(st, v) is True for _, v in self.tls_cells(st)):
                self.viol(st, 'a waiter is entered with an id that is not its own', 'id')
            if c and c[0][0] == 'p':
                st.mon['S01t'] = c[0]
                if st.mon.get('S01x') == ('#o',) + c[0][1:]:
                    self.viol(st, 'a waiter is entered with its mark set', 'preset')
            else:
                self.viol(st, 'a waiter is entered without a mark', 'mark')

    def on_loaded(self, st, o, off, v):
        if not self.waits:
            return
        # a wait inside another one of the same thread shares its entry
        if off == self.roles.waiter_token and self.waiters_buf(o) and v[0] in ('s', 'p'):
            i = st.mem.get(o, EMPTY).get(self.roles.waiter_id)
            if i and self.own_id(st, i[0]):
                self.n['entry shared'] += 1
                if v[0] == 'p' and OBJ.keys[v[1]][0] == 'H' and st.mon.get('S01t') != v:
                    self.viol(st, 'the mark of a waiter already entered is replaced', 'replaced')
                st.mon['S01t'] = v
        t = st.mon.get('S01t')
        if t and self.eng.addr(t) == (o, off):
            st.mon['S01c'] = v

    def on_unlock(self, st, loc):
        if self.field(loc) in self.roles.ctx_locks and 'S01b' in st.mon:
            st.mon['S01b'] = 2
        if self.waits and self.outer(loc):
            self.n['lock given up'] += 1
            st.mon['S01'] = ('#l', 't' if 'S01t' in st.mon else 'f')
            if self.given and 'S01t' not in st.mon:
                # the lock was held on entry: taking it again does not bring a missed notification back
                st.mon['S01g'] = True

    def on_lock(self, st, loc):
        if self.waits and self.outer(loc):
            st.mon.pop('S01', None)

    on_trylock = on_lock

    def on_block(self, st, what, cv, loc, timed):
        if not self.waits or self.field(cv) not in self.roles.ctx_cvs:
            return
        self.n['blocked'] += 1
        if 'S01t' not in st.mon:
            self.viol(st, 'a wait blocks without being entered in the list of waiters', 'unknown')
        elif st.mon.get('S01') == ('#l', 'f') or 'S01g' in st.mon:
            self.viol(st, 'the lock is given up before the waiter is entered in the list', 'order')
        if st.mon.get('S01b') == 2:
            c = st.mon.get('S01c')
            if c is None or self.is_zero(st, c) is not True:
                self.viol(st, 'a wait blocks again without looking at its mark', 'again')
        st.mon['S01b'] = 1
        st.mon.pop('S01c', None)

    # ---- notifying
    def on_access(self, st, o, off, size, write, atomic, val):
        if write:
            if self.waits and OBJ.keys[o][0] == 'H' and size == 1 and not self.eng.shared(st, o) and \
                    self.is_zero(st, val) is not True:
                st.mon['S01x'] = ('#o', o, off)
            e = self.marked(o, off)
            if e is not None:
                new = val[3] if write == 'rmw' and val else val
                self.n['waiter marked'] += 1
                if not atomic or new is None or self.is_zero(st, new) is not False:
                    self.viol(st, 'the mark of a waiter is taken back', 'unmark')
                st.mon['S01m'] = ('#o', e)

    def on_find(self, st, a, buf, key):
        if self.eng.owner_field(*a)[0] != self.roles.contexts:
            return
        e = self.waiter_of(key, self.roles.waiter_id)
        if e is not None:
            self.n['waiter woken'] += 1
            if st.mon.get('S01m') != ('#o', e):
                self.viol(st, 'a waiter is woken before it is marked', 'late')

    @classmethod
    def finish(cls, ctx):
        ctx.need('waiter entered', 5)
        ctx.need('entry shared', 5)
        ctx.need('lock given up', 5)
        ctx.need('blocked', 10)
        ctx.need('waiter marked', 2)
        ctx.need('waiter woken', 2)


class S02(WaiterRule):
    id = 'S02'
    title = ('at every end of a wait on the condition variable the lock of the caller is held again, and an entry made by the wait '
             'was removed, or is known to be taken by a notifier; an entry made by an outer wait is left alone')
    only = staticmethod(lambda f: f.name.startswith(('e_cv_wait', 'e_sem_wait')))
    WALKS = ('S02w',)

    # mon['S02']: outer locks given up; mon['S02e']: (id, mark) of the entry made
    # mon['S02w']: (buffer, -, names of the next index) of a search for the entry; mon['S02i']: id removed in this section
    def start(self, st):
        self.pending = []
        st.mon['S02'] = 0

    def on_unlock(self, st, loc):
        if self.outer(loc):
            st.mon['S02'] = max(-2, st.mon['S02'] - 1)
            if st.mon['S02'] < -1:
                self.viol(st, 'the lock is given up twice', 'twice')
        elif self.field(loc) in self.roles.sem_locks:
            st.mon.pop('S02i', None)
            w = st.mon.pop('S02w', None)
            if 'S02e' not in st.mon:
                return
            off = self.member(st, loc[0], self.roles.waiters)
            fr = next(x for x in reversed(st.frames) if not isinstance(x, NFrame))
            q = self.eng.sequence(st, loc[0], off, fr, fr.ins()) if off is not None else None
            if q and (q[0] is None or self.is_zero(st, q[1]) is True
                      or w and any(n == q[1] or self.truth(st, mk_eq(n, q[1])) is True for n in w[2])):
                # nothing to remove: a notifier has taken the entry
                st.mon.pop('S02e')
                st.mon['S02r'] = True

    # ---- a search of the list by hand
    def on_fact(self, st, p, t):
        e = st.mon.get('S02e')
        if not e or t is not False or p[1] != 'eq' or e[0] not in p[2:4]:
            return
        x = self.waiter_of(p[3] if p[2] == e[0] else p[2], self.roles.waiter_id)
        if x is None or not any(self.field(l) in self.roles.sem_locks for l in st.locks):
            return
        b, i = self.waiters_buf(x)
        w = st.mon.get('S02w')
        if not w and self.is_zero(st, i) is True:
            st.mon['S02w'] = (('#o', b), UNDEF, (ONE,))
        elif w and w[0] == ('#o', b) and any(n == i or self.truth(st, mk_eq(n, i)) is True for n in w[2]):
            st.mon['S02w'] = w[:2] + (tuple(bump(self.eng, n) for n in w[2]),)

    def on_lock(self, st, loc):
        if self.outer(loc):
            st.mon['S02'] = min(1, st.mon['S02'] + 1)
            if st.mon['S02'] > 0:
                self.viol(st, 'the lock is taken although it is held', 'held')

    def on_trylock(self, st, loc):
        if self.outer(loc):
            st.mon['S02'] = min(0, st.mon['S02'] + 1)

    def on_vec(self, st, o, base, old, new):
        e = self.entered(st, o, base, old, new)
        if e is not None:
            m = st.mem.get(e, EMPTY)
            i, t = m.get(self.roles.waiter_id), m.get(self.roles.waiter_token)
            self.n['waiter entered'] += 1
            st.mon['S02e'] = (i[0] if i else UNDEF, t[0] if t else UNDEF)
            st.mon.pop('S02c', None)

    def on_loaded(self, st, o, off, v):
        e = st.mon.get('S02e')
        if e and e[1][0] == 'p' and (o, off) == e[1][1:]:
            st.mon['S02c'] = v

    def is_waiters(self, b):
        own = self.eng.bufowner.get(b)
        return bool(own) and self.eng.field(*own) == self.roles.waiters

    def remove(self, st, how):
        if 'S02e' not in st.mon:
            self.viol(st, 'a wait removes an entry it has not made', 'foreign')
            return
        self.n['waiter removed', how] += 1
        st.mon.pop('S02e')
        st.mon['S02r'] = True

    def on_remove_if(self, st, b, pred, args):
        if self.is_waiters(b):
            e = st.mon.get('S02e')
            self.remove(st, 'all of the id')
            if e:
                st.mon['S02p'] = e

    def on_removed(self, st, v, t):
        e = st.mon.pop('S02p', None)
        if e:
            if not (t[0] == 't' and t[1] == 'eq' and e[0] in t[2:4] or t == ONE):
                self.viol(st, 'a wait removes entries of other threads', 'others')

    def on_nomatch(self, st, b, pred):
        # nothing to remove: a notifier has taken the entry
        if self.is_waiters(b) and 'S02e' in st.mon:
            st.mon.pop('S02e')
            st.mon['S02r'] = True

    def on_erase(self, st, a, b, i, j):
        if self.eng.owner_field(*a)[0] != self.roles.waiters or j is not None:
            return
        e = st.mon.get('S02e')
        c = st.mem.get(self.eng.elem(b, i), EMPTY).get(self.roles.waiter_id) if i else None
        d = st.mon.get('S02i')
        if e and c and (c[0] == e[0] or self.truth(st, mk_eq(c[0], e[0])) is True):
            self.remove(st, 'one')
            st.mon['S02i'] = e[0]
        elif d is not None and c and (c[0] == d or self.truth(st, mk_eq(c[0], d)) is True):
            pass
        elif e is None:
            self.viol(st, 'a wait removes an entry it has not made', 'foreign')
        else:
            self.viol(st, 'a wait removes entries of other threads', 'others')

    def on_end(self, st, kind, v):
        if kind not in ('return', 'unwind'):
            return
        self.n['wait ended', kind] += 1
        if st.mon['S02'] != 0:
            self.viol(st, 'a wait ends without holding the lock of its caller', 'lock')
        if 'S02e' in st.mon:
            c = st.mon.get('S02c')
            if c is None or self.is_zero(st, c) is not False:
                self.viol(st, 'a wait ends but stays in the list of waiters', 'entry')

    @classmethod
    def finish(cls, ctx):
        ctx.need('waiter entered', 4)
        ctx.need('waiter removed', 4)
        for k in ('return', 'unwind'):
            if not ctx.n['wait ended', k]:
                ctx.need('wait ended by ' + k)


class S03(WaiterRule):
    id = 'S03'
    title = ('notify-one takes the first element of a list of waiters not known to be empty, and only that; notify-all takes the '
             'whole list in one critical section and passes every element; each waiter taken is marked once and its thread woken')
    only = staticmethod(lambda f: f.name.startswith('e_cv_notify'))
    WALKS = ('S03b',)

    # mon['S03b'] = (buffer, size, names of the next index, element being released)
    # an element being released is (waiter, id or (), marked, woken)
    def start(self, st):
        self.pending = []
        self.every = self.eng.root.startswith('e_cv_notify_all')

    def on_erase(self, st, a, b, i, j):
        if self.eng.owner_field(*a)[0] != self.roles.waiters:
            return
        if self.every:
            return
        if j is not None or i is None or st.mon.get('S03b'):
            self.viol(st, 'notify-one takes more than one waiter', 'many')
        elif self.is_zero(st, i) is not True:
            self.viol(st, 'notify-one does not take the waiter that waits longest', 'first')
        else:
            self.n['waiter taken'] += 1
            st.mon['S03b'] = (('#o', b), ONE, (ZERO,), st.mon.pop('S03e', ()))

    def on_vec(self, st, o, base, old, new):
        if self.eng.field(o, base) != self.roles.waiters:
            return
        if not any(self.field(l) in self.roles.sem_locks for l in st.locks):
            self.viol(st, 'the list of waiters is changed without its lock', 'lock')
        if self.every and old and old[0] is not None and (new is None or new[0] != old[0]) \
                and self.is_zero(st, old[1]) is not True and not st.mon.get('S03b'):
            self.n['waiters taken'] += 1
            st.mon['S03b'] = (('#o', old[0]), old[1], (ZERO,), ())

    def on_unlock(self, st, loc):
        if self.field(loc) not in self.roles.sem_locks:
            return
        off = self.member(st, loc[0], self.roles.waiters)
        fr = next(x for x in reversed(st.frames) if not isinstance(x, NFrame))
        q = self.eng.sequence(st, loc[0], off, fr, fr.ins()) if off is not None else None
        empty = q is not None and (q[0] is None or self.is_zero(st, q[1]) is True)
        self.n['list looked at'] += 1
        if self.every and not empty:
            self.viol(st, 'notify-all leaves waiters in the list', 'left')
        if not self.every and not empty and not st.mon.get('S03b'):
            self.viol(st, 'notify-one takes no waiter although there may be one', 'none')
        st.mon['S03l'] = True

    # ---- releasing what was taken
    def on_loaded(self, st, o, off, v):
        w = st.mon.get('S03b')
        e = self.waiters_buf(o)
        if not e or off not in (self.roles.waiter_token, self.roles.waiter_id):
            return
        if not self.every:
            # the element is looked at before it is erased
            if self.is_zero(st, e[1]) is True:
                cur = w[3] if w else st.mon.get('S03e', ())
                if off == self.roles.waiter_id or not cur:
                    cur = (('#o', o), v if off == self.roles.waiter_id else (cur[1] if cur else ()),
                           cur[2] if cur else 0, cur[3] if cur else False)
                if w:
                    st.mon['S03b'] = w[:3] + (cur,)
                else:
                    st.mon['S03e'] = cur
            return
        if not w or w[0] != ('#o', e[0]):
            return
        if w[3] and w[3][0] == ('#o', o):
            if off == self.roles.waiter_id:
                st.mon['S03b'] = w[:3] + ((w[3][0], v) + w[3][2:],)
            return
        if any(n == e[1] or self.truth(st, mk_eq(n, e[1])) is True for n in w[2]):
            if w[3]:
                self.released(st, w[3])
            st.mon['S03b'] = w[:2] + (tuple(bump(self.eng, n) for n in w[2]),
                                      (('#o', o), v if off == self.roles.waiter_id else (), 0, False))

    def released(self, st, e):
        """everything due was done for the waiter"""
        if e[1] and self.is_zero(st, e[1]) is True:
            return
        self.n['waiter released'] += 1
        if e[2] != 1:
            self.viol(st, 'a waiter taken from the list is not marked' if not e[2] else 'a waiter is marked twice', 'mark')
        elif not e[3] and not (e[1] and self.own_id(st, e[1])):
            self.viol(st, 'a waiter taken from the list is not woken', 'wake')

    def current(self, st):
        w = st.mon.get('S03b')
        return w[3] if w else st.mon.get('S03e', ())

    def update(self, st, e):
        w = st.mon.get('S03b')
        if w:
            st.mon['S03b'] = w[:3] + (e,)
        else:
            st.mon['S03e'] = e

    def on_access(self, st, o, off, size, write, atomic, val):
        if not write:
            return
        e = self.marked(o, off)
        if e is None:
            return
        cur = self.current(st)
        if not cur or cur[0] != ('#o', e):
            self.viol(st, 'a waiter is marked that is not the one being released', 'other')
        else:
            self.update(st, cur[:2] + (min(cur[2] + 1, 2),) + cur[3:])

    def on_find(self, st, a, buf, key):
        if self.eng.owner_field(*a)[0] != self.roles.contexts:
            return
        cur = self.current(st)
        if cur and (cur[1] and (key == cur[1] or self.truth(st, mk_eq(key, cur[1])) is True) or
                    self.waiter_of(key, self.roles.waiter_id) == cur[0][1]):
            self.update(st, cur[:3] + (True,))

    def on_end(self, st, kind, v):
        if kind != 'return':
            return
        if 'S03l' not in st.mon:
            self.viol(st, 'the list of waiters is not looked at under its lock', 'look')
        w = st.mon.get('S03b')
        if w and w[3]:
            self.released(st, w[3])
        if w and not self.every and not w[3]:
            self.viol(st, 'a waiter taken from the list is not marked', 'mark')
        if w and self.every:
            self.n['list done'] += 1
            if not any(n == w[1] or self.truth(st, mk_eq(n, w[1])) is True or self.truth(st, mk_ult(n, w[1])) is False
                       for n in w[2]):
                self.viol(st, 'notify-all does not release every waiter it takes', 'rest')

    @classmethod
    def finish(cls, ctx):
        ctx.need('waiter taken')
        ctx.need('waiters taken')
        ctx.need('list looked at', 2)
        ctx.need('waiter released', 3)
        ctx.need('list done', 2)


class M01(WaiterRule):
    id = 'M01'
    title = ('lock and a successful try-lock end having found the flag unset by test-and-set and stored the own id afterwards; '
             'a failed test-and-set is followed by blocking only under the guard up to the entry into the list of waiters; unlock '
             'by the owner clears owner, then flag, under the guard, then notifies; misuse throws and writes nothing')
    only = staticmethod(lambda f: f.name.startswith('e_mutex_'))

    # mon['M01'] = ownership: 0 not, 1 flag taken, 2 owner stored, 3 owner removed, 4 flag cleared
    def start(self, st):
        self.pending = []
        self.op = self.eng.root[len('e_mutex_'):]
        st.mon['M01'] = 1 if self.op == 'unlock' else 0

    def guarded(self, st, o):
        return any(l[0] == o and self.field(l) in self.roles.mtx_locks for l in st.locks)

    def on_access(self, st, o, off, size, write, atomic, val):
        f = self.eng.field(o, off)
        r = self.roles
        if f not in (r.mtx_flag, r.mtx_owner) or not write:
            return
        new = val[3] if write == 'rmw' and val else val
        now = st.mon['M01']
        if not atomic:
            self.viol(st, 'ownership is written without atomicity', 'atomic')
        if f == r.mtx_flag:
            if new is None or new[0] != 'i':
                self.viol(st, 'the flag of a mutex becomes unknown', 'flag')
            elif new != ZERO:
                if write != 'rmw':
                    self.viol(st, 'the flag of a mutex is set without testing it', 'test')
                    return
                self.n['test and set'] += 1
                if now:
                    self.viol(st, 'the flag of a mutex is tested although it is owned', 'again')
                st.mon['M01o'] = val[2]
                st.mon['M01g'] = self.guarded(st, o)
                for k in ('M01w', 'M01e', 'M01s'):
                    st.mon.pop(k, None)
            else:
                self.n['flag cleared'] += 1
                if self.op != 'unlock' and not self.took(st):
                    self.viol(st, 'the flag of a mutex is cleared by a thread that does not own it', 'clear')
                if self.op == 'unlock':
                    if not self.owner(st):
                        self.viol(st, 'the mutex is released by a thread not known to own it', 'foreign')
                    if now == 4:
                        self.viol(st, 'the mutex is released twice', 'twice')
                    if now != 3:
                        self.viol(st, 'the mutex is released before the owner is removed', 'early')
                    if not self.guarded(st, o):
                        self.viol(st, 'the mutex is released while another thread may be about to wait for it', 'guard')
                    st.mon['M01'] = 4
                else:
                    st.mon['M01'] = 0
                    st.mon.pop('M01o', None)
        else:
            if self.op == 'unlock':
                if not self.owner(st):
                    self.viol(st, 'the owner is changed by a thread not known to own the mutex', 'foreign')
                elif now == 4:
                    self.viol(st, 'the owner is changed after the mutex was released', 'late')
                elif new != ZERO:
                    self.viol(st, 'the owner is not removed', 'stays')
                else:
                    self.n['owner removed'] += 1
                    st.mon['M01'] = 3
            else:
                if not self.took(st):
                    self.viol(st, 'the owner is stored by a thread that has not taken the flag', 'store')
                elif not self.own_id(st, new) and not any(self.is_zero(st, v) is True for _, v in self.tls_cells(st)):
                    self.viol(st, 'the owner stored is not the calling thread', 'who')
                else:
                    self.n['owner stored'] += 1
                    st.mon['M01'] = 2

    def took(self, st):
        v = st.mon.get('M01o')
        return v is not None and self.is_zero(st, v) is True

    def on_loaded(self, st, o, off, v):
        if self.eng.field(o, off) == self.roles.mtx_owner:
            st.mon['M01w'] = v

    def owner(self, st):
        """is the owner read known to be the calling thread?"""
        v = st.mon.get('M01w')
        if v is None:
            return False
        if self.is_zero(st, v) is True:
            return any(self.is_zero(st, x) is True for _, x in self.tls_cells(st))
        return self.own_id(st, v)

    # ---- blocking
    def on_vec(self, st, o, base, old, new):
        if self.entered(st, o, base, old, new) is not None:
            st.mon['M01e'] = True
        elif self.eng.field(o, base) == self.roles.waiters:
            st.mon['M01n'] = True

    def on_unlock(self, st, loc):
        f = self.field(loc)
        if f in self.roles.mtx_locks and 'M01e' not in st.mon and not st.mon.get('M01s'):
            st.mon['M01g'] = False
        if f in self.roles.sem_locks:
            if self.op == 'lock':
                # entered, or an entry of the same thread is there
                st.mon['M01s'] = True
            elif st.mon['M01'] == 4:
                off = self.member(st, loc[0], self.roles.waiters)
                fr = next(x for x in reversed(st.frames) if not isinstance(x, NFrame))
                q = self.eng.sequence(st, loc[0], off, fr, fr.ins()) if off is not None else None
                if st.mon.get('M01n') or q is not None and (q[0] is None or self.is_zero(st, q[1]) is True):
                    self.n['waiters notified'] += 1
                    st.mon['M01d'] = True

    def on_block(self, st, what, cv, loc, timed):
        if self.op != 'lock':
            self.viol(st, '%s blocks' % self.op, 'blocks')
            return
        self.n['blocked'] += 1
        if self.took(st):
            self.viol(st, 'lock blocks although the mutex was taken', 'taken')
        if not st.mon.get('M01g'):
            self.viol(st, 'an unlock may be missed between the failed attempt and blocking', 'missed')

    # ---- ends
    def on_throw(self, st, ti, v):
        if 'system_error' not in ti:
            return
        self.n['misuse reported', self.op] += 1
        if self.op == 'lock' and not (self.owner(st) and not self.took(st)):
            self.viol(st, 'lock reports a deadlock although the caller may not own the mutex', 'report')
        if self.op == 'unlock' and self.own_known(st):
            self.viol(st, 'unlock refuses the owner', 'refuse')

    def own_known(self, st):
        return self.owner(st)

    def on_end(self, st, kind, v):
        if kind not in ('return', 'unwind'):
            return
        m = st.mon['M01']
        self.n['ended', self.op, kind] += 1
        if self.op in ('lock', 'try_lock'):
            held = self.took(st)
            if kind == 'unwind':
                # an unregistered caller has no id to own the mutex with
                if (m or held) and not any(self.is_zero(st, x) is True for _, x in self.tls_cells(st)):
                    self.viol(st, '%s throws but keeps the mutex' % self.op, 'keeps')
            elif self.op == 'lock':
                if not held or m != 2:
                    self.viol(st, 'lock returns without owning the mutex', 'notowned')
            elif v == ZERO or v[0] != 'i' and self.is_zero(st, v) is True:
                o = st.mon.get('M01o')
                if m or o is None or self.is_zero(st, o) is not False:
                    self.viol(st, 'try-lock reports failure although it may have taken the mutex', 'lie')
            else:
                if not held or m != 2:
                    self.viol(st, 'try-lock reports success without owning the mutex', 'lie')
        elif kind == 'return':
            if m != 4:
                self.viol(st, 'unlock returns without releasing the mutex', 'unreleased')
            elif not st.mon.get('M01d'):
                self.viol(st, 'unlock does not notify the waiters', 'notify')
        elif m not in (1, 4):
            self.viol(st, 'unlock throws with the mutex half released', 'half')

    @classmethod
    def finish(cls, ctx):
        ctx.need('test and set', 2)
        ctx.need('owner stored', 2)
        ctx.need('owner removed')
        ctx.need('flag cleared')
        ctx.need('blocked')
        ctx.need('waiters notified')
        for k in ('lock', 'unlock'):
            if not ctx.n['misuse reported', k]:
                ctx.need('misuse reported by ' + k)


RULES = [S01, S02, S03, M01]
