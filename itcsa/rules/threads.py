"""T01-T03, T07, T08: the task queue of a thread."""
from .base import *
from ..models import has
from ..engine import signed


class ThreadRule(Rule):
    """parts shared by the rules about thread contexts"""

    def is_ctx(self, o, field):
        return field is not None and self.roles.rec(field) == self.roles.ctx

    def ctx_lock(self, st, o):
        """is the lock of the context held?"""
        return any(l[0] == o and self.eng.field(*l) in self.roles.ctx_locks for l in st.locks)

    def own(self, st):
        """context objects the thread local pointer refers to"""
        res = []
        for t, v in self.tls_cells(st):
            a = self.eng.addr(v)
            if a:
                res.append(a[0])
        return res

    def registry_key(self, o):
        """the id under which the context object was found in the registry, or None"""
        k = OBJ.keys[o]
        if k[0] == '*' and k[1][0] == 's':
            s = SYM.keys[k[1][1]]
            if s[0] in ('R', 'I'):
                n = s[3] if s[0] == 'R' else s[1]
                kk = OBJ.keys[n]
                if kk[0] == 'nd' and self.eng.owner_field(n, 0)[0] == self.roles.contexts:
                    return kk[2]
        return None

    def queue(self, st, o, field):
        """(buffer, size) of a task list, None if unknown here"""
        off = self.member(st, o, field)
        if off is None or self.eng.is_volatile(st, o, off):
            return None
        fr = next(f for f in reversed(st.frames) if not isinstance(f, NFrame))
        return self.eng.sequence(st, o, off, fr, fr.ins())

    def flag(self, st, o, field):
        off = self.member(st, o, field)
        return self.cell(st, o, off) if off is not None else None

    def idle(self, st, o):
        """why the queue of the context is not known to be empty, or None if it is"""
        q = self.queue(st, o, self.roles.pending)
        if q is None or self.is_zero(st, q[1]) is not True:
            return 'its queue is not known to be empty'
        for p in self.roles.processing:
            q = self.queue(st, o, p)
            if q is None:
                return 'its queue is not known to be empty'
            if self.is_zero(st, q[1]) is True:
                continue
            cs = [self.flag(st, o, c) for c in self.roles.cursors]
            if not any(c is not None and self.truth(st, mk_ult(c, q[1])) is False for c in cs):
                return 'tasks taken from its queue may be left to process'
        return None


def pushed(old, new):
    """does a sequence grow by one at its end?"""
    return old and new and old[0] is not None and old[0] == new[0] and \
        split_add(new[1])[0] == split_add(old[1])[0] and split_add(new[1])[1] == split_add(old[1])[1] + 1 \
        or old and new and old[1][0] == 'i' and new[1] == ('i', old[1][1] + 1) and old[0] == new[0]


class Waking(ThreadRule):
    """something a sleeping thread must notice was stored in its context: before the lock is released
    the wake flag must be set, and the condition variable notified in the critical section or after it"""

    def noticed(self, st, o, what):
        if not self.ctx_lock(st, o):
            self.viol(st, '%s without holding the lock of the thread context' % what, ('nolock', what))
        m = st.mon.get(self.id + 'w', ())
        if not any(e[0] == ('#o', o) for e in m):
            pre = ('#o', o) in st.mon.get(self.id + 'n', ())
            st.mon[self.id + 'w'] = m + ((('#o', o), 'flag', what, pre),)

    def on_notify(self, st, cv, every):
        f = self.field(cv)
        if f in self.roles.ctx_cvs:
            self.n['wake-up'] += 1
            m = st.mon.get(self.id + 'w', ())
            st.mon[self.id + 'w'] = tuple(e[:3] + (True,) if e[0] == ('#o', cv[0]) else e for e in m)
            if self.ctx_lock(st, cv[0]):
                st.mon[self.id + 'n'] = (('#o', cv[0]),)

    def on_unlock(self, st, loc):
        if self.field(loc) not in self.roles.ctx_locks:
            return
        st.mon.pop(self.id + 'n', None)
        m = []
        for e in st.mon.get(self.id + 'w', ()):
            if e[0] == ('#o', loc[0]) and e[1] == 'flag':
                ws = self.roles.wakes
                if ws and not any(self.is_zero(st, self.flag(st, loc[0], w) or UNDEF) is False for w in ws):
                    self.viol(st, '%s but the wake flag is not set before the lock is released' % e[2], ('flag', e[2]))
                e = (e[0], 'done', e[2], e[3])
            m.append(e)
        m = tuple(e for e in m if not (e[1] == 'done' and e[3]))
        if m:
            st.mon[self.id + 'w'] = m
        else:
            st.mon.pop(self.id + 'w', None)

    def settle(self, st):
        for e in st.mon.get(self.id + 'w', ()):
            if not e[3]:
                self.viol(st, '%s but the thread is not notified afterwards' % e[2], ('notify', e[2]))


class T01(Waking):
    id = 'T01'
    title = ('a push onto a queue happens under its lock with wake flag and notification, into the context registered '
             'under the given id, at the end, and posting returns true iff exactly one task was queued')

    POSTS = ('e_invoke', 'e_dispatch', 'e_set_thread_config', 'e_notify')

    def start(self, st):
        st.mon['T01'] = (0, 0)

    def on_vec(self, st, o, base, old, new):
        f = self.eng.field(o, base)
        if f != self.roles.pending or not self.eng.shared(st, o):
            return
        if not pushed(old, new):
            return
        self.n['push'] += 1
        self.noticed(st, o, 'a task is queued')
        p, d = st.mon['T01']
        st.mon['T01'] = (min(p + 1, 2), d)     # saturating: loops must converge
        k = self.registry_key(o)
        if k is None:
            self.viol(st, 'a task is queued on a context that was not found in the registry', 'unregistered')
        elif self.eng.root.startswith(self.POSTS):
            arg = self.target(st)
            if arg is not None and self.truth(st, mk_eq(k, arg)) is not True:
                self.viol(st, 'the task is queued on a thread other than the one named', 'other')
        if self.eng.root == 'e_invoke_task':
            el = OBJ(('el', old[0], old[1])) if old and old[0] is not None else None
            m = st.mem.get(el, EMPTY).get(16)
            i = st.mem.get(el, EMPTY).get(24)
            a = OBJ(('arg', 1, False, ''))
            if m is None or i is None:
                self.viol(st, 'something else than the given task is queued', 'content')
            else:
                if self.is_zero(st, m[0]) is not False:
                    self.viol(st, 'an empty task may be queued', 'empty')
                if i[0] != sym(('I', a, 24)):
                    self.viol(st, 'something else than the given task is queued', 'content')

    def on_insert_at(self, st, a, buf, idx):
        f = self.eng.owner_field(*a)[0]
        if f in self.roles.queues:
            self.viol(st, 'a task is inserted before others', 'front')

    def target(self, st):
        i = {'e_set_thread_config': 0}.get(self.eng.root, 0)
        return sym(('I', OBJ(('arg', i, False, 'v')), 0))

    def on_userfn(self, st, kind, fn, args):
        if kind == 'call':
            p, d = st.mon['T01']
            st.mon['T01'] = (p, min(d + 1, 2))

    def on_end(self, st, kind, v):
        self.settle(st)
        r = self.eng.root
        if r.startswith(('e_invoke', 'e_dispatch', 'e_set_thread_config')) and kind == 'return':
            p, d = st.mon['T01']
            self.n['outcome of a post', 'queued' if p else 'run' if d else 'refused'] += 1
            if r.startswith('e_set_thread_config'):
                return
            ok = self.truth(st, neg(mk_eq(v, ZERO))) if v[0] not in ('void', 'u') else None
            if ok is None:
                self.viol(st, 'posting returns something unrelated to its outcome', 'result')
                return
            if ok and p + d != 1:
                self.viol(st, 'posting reports success but the task was queued %d times' % (p + d), 'lost')
            if not ok and p + d:
                self.viol(st, 'posting reports failure but the task was queued', 'refused')
            if p > 1:
                self.viol(st, 'the task is queued %d times' % p, 'twice')

    @classmethod
    def finish(cls, ctx):
        ctx.need('push', 20)
        ctx.need('wake-up', 20)
        for o in ('queued', 'refused'):
            if not ctx.n['outcome of a post', o]:
                ctx.need('outcome of a post %s' % o)


class T02(ThreadRule):
    id = 'T02'
    title = ('whenever a thread blocks, under the lock it gives up its own queue is known to be empty and no exit requested, '
             'or the wake flag set by every poster is known to be clear since such a check; '
             'queue, exit flag and wake flag are written under that lock only')

    def on_block(self, st, what, cv, loc, timed):
        f = self.field(cv)
        self.n['block', what, f] += 1
        if what == 'join':
            return
        if what == 'sleep':
            self.viol(st, 'the thread sleeps where no task can reach it', 'sleep')
            return
        if f == self.roles.cleanup:
            return
        if f not in self.roles.ctx_cvs:
            self.viol(st, 'the thread blocks on %s where no task can reach it' % f, ('cv', f))
            return
        o = cv[0]
        if not loc or loc[0] != o or self.field(loc) not in self.roles.ctx_locks:
            self.viol(st, 'the thread blocks without giving up the lock of its own queue', 'lock')
            return
        if o not in self.own(st):
            self.viol(st, 'the thread blocks on the context of another thread', 'own')
            return
        why = self.idle(st, o)
        if why is None:
            e = self.flag(st, o, self.roles.exit)
            if e is None or self.is_zero(st, e) is not True:
                why = 'an exit request may be pending'
        wake = [self.flag(st, o, w) for w in self.roles.wakes]
        clear = bool(wake) and all(w is not None and self.is_zero(st, w) is True for w in wake)
        if why is None:
            st.mon['T02'] = (('#o', o), clear)
            self.n['first block'] += 1
            return
        if st.mon.get('T02') == (('#o', o), True) and clear:
            self.n['block again'] += 1
            return
        self.viol(st, 'the thread blocks although %s' % why, why)

    def on_access(self, st, o, off, size, write, atomic, val):
        if not write:
            return
        f = self.eng.field(o, off)
        if f is None or not self.eng.shared(st, o):
            return
        if f in self.roles.wakes or f == self.roles.exit:
            self.n['write of a flag'] += 1
            if not self.ctx_lock(st, o):
                self.viol(st, '%s is written without holding the lock of the queue' % f, ('w', f))
            if f in self.roles.wakes and (val is None or val == ZERO or self.is_zero(st, val) is not False):
                st.mon.pop('T02', None)
        elif f in self.roles.queues:
            self.n['write of a queue'] += 1
            if not self.ctx_lock(st, o):
                self.viol(st, '%s is written without holding the lock of the queue' % f, ('w', f))

    @classmethod
    def finish(cls, ctx):
        ctx.need('block', 10)
        ctx.need('first block', 5)
        ctx.need('write of a flag', 20)
        ctx.need('write of a queue', 20)


class T03(ThreadRule):
    id = 'T03'
    title = ('tasks leave a queue only from its front, by the owning thread, emptied in the critical section that advances the '
             'cursor, and the task taken is the one that is called, once; buffers are exchanged only when exhausted')

    # mon['T03']: (loose buffers, new processing list waiting for its cursor, taken (object, buffer, index, invoker) or None)
    def start(self, st):
        st.mon['T03l'] = ()
        self.all = set(self.roles.queues)

    def spent(self, st, buf):
        return any(e[1] == buf for e in st.mon.get('spent', ()))

    def left(self, st, o, buf, size):
        """may the processing list contain unprocessed tasks?"""
        if self.is_zero(st, size) is True or self.spent(st, buf):
            return False
        cs = [st.mem.get(o, EMPTY).get(self.member(st, o, c), (UNDEF,))[0] for c in self.roles.cursors]
        return not any(c[0] != 'u' and self.truth(st, mk_ult(c, size)) is False for c in cs)

    def on_vec(self, st, o, base, old, new):
        f = self.eng.field(o, base)
        if f not in self.all or not self.eng.shared(st, o):
            return
        self.n['change of a queue'] += 1
        if not self.ctx_lock(st, o):
            self.viol(st, 'a queue is changed without its lock', 'lock')
            return
        if pushed(old, new) and f == self.roles.pending:
            return
        l = st.mon['T03l']
        if old is None:
            fr = next(x for x in reversed(st.frames) if not isinstance(x, NFrame))
            s = self.eng.sequence(st, o, base, fr, fr.ins())
            old = s
        if old[0] is not None and (new is None or new[0] != old[0]):
            # the buffer leaves this queue
            if f == self.roles.pending:
                if self.is_zero(st, old[1]) is not True and not self.spent(st, old[0]):
                    l = l + ((('#o', old[0]), old[1]),)
            elif self.left(st, o, old[0], old[1]):
                l = l + ((('#o', old[0]), old[1]),)
        elif old[0] is not None and new[1] != old[1]:
            # same buffer, other size
            keep = f != self.roles.pending and not self.left(st, o, old[0], old[1])
            if not keep and self.is_zero(st, old[1]) is not True and not self.spent(st, old[0]):
                self.viol(st, 'queued tasks are discarded', 'discard')
        if new is not None and new[0] is not None and (old[0] != new[0]):
            e = (('#o', new[0]), new[1])
            if e in l:
                l = tuple(x for x in l if x != e)
                if f != self.roles.pending:
                    if st.mon.pop('T03z', None) is None:
                        st.mon['T03n'] = (('#o', o), ('#o', new[0]))
                    self.n['exchange of buffers'] += 1
        st.mon['T03l'] = l

    def on_access(self, st, o, off, size, write, atomic, val):
        if not write:
            return
        f = self.eng.field(o, off)
        if f in self.roles.cursors and self.eng.shared(st, o):
            self.cursor(st, o, off, val[3] if write == 'rmw' and val else val)
            return
        k = OBJ.keys[o]
        if k[0] == 'el' and off == 16 and val == ZERO:
            own = self.eng.owner_field(o, off)[0]
            if own in self.all and own != self.roles.pending:
                # an element is emptied
                x = st.mem.get(o, EMPTY).get(16)
                if x and x[0] == ZERO:
                    return
                m = st.mon.get('T03e', ())
                if not any(e[0] == ('#o', o) for e in m):
                    st.mon['T03e'] = m + ((('#o', o), self.peek(st, o, 24)),)

    def cursor(self, st, o, off, val):
        self.n['cursor'] += 1
        if not self.ctx_lock(st, o):
            self.viol(st, 'the cursor is moved without the lock of the queue', 'lock')
            return
        old = self.peek(st, o, off)
        if val == ZERO:
            n = st.mon.pop('T03n', None)
            if n is None or n[0] != ('#o', o):
                q = self.queue(st, o, self.roles.processing[0])
                if q is not None and q[0] is not None and self.spent(st, q[0]):
                    st.mon['T03z'] = (('#o', o), ('#o', q[0]))      # to be exchanged before the lock is released
                elif q is None or self.is_zero(st, q[1]) is not True:
                    self.viol(st, 'the cursor is reset although the list of tasks was not exchanged', 'reset')
            return
        if old[0] != 'u' and val is not None and val[0] != 'u' and split_add(val)[0] == split_add(old)[0] and \
                split_add(val)[1] == split_add(old)[1] + 1 or old == ZERO and val == ONE:
            self.take(st, o, old)
            return
        self.viol(st, 'the cursor is moved other than to the next task', 'step')

    def take(self, st, o, idx):
        self.n['task taken'] += 1
        if o not in self.own(st):
            self.viol(st, 'a task of another thread is taken', 'foreign')
        if st.mon.get('T03n') or st.mon.get('T03z'):
            self.viol(st, 'a task is taken before the cursor was reset to the front of the exchanged list', 'front')
        q = self.queue(st, o, self.roles.processing[0])
        if q is None or q[0] is None or self.truth(st, mk_ult(idx, q[1])) is not True:
            self.viol(st, 'a task is taken beyond the end of the list', 'end')
            return
        self.flush(st)
        st.mon['T03t'] = (('#o', o), ('#o', q[0]), idx)

    def on_unlock(self, st, loc):
        if self.field(loc) not in self.roles.ctx_locks:
            return
        for b, s in st.mon['T03l']:
            if self.is_zero(st, s) is not True:
                self.viol(st, 'queued tasks are discarded when the buffers are exchanged', 'loose')
        st.mon['T03l'] = ()
        if st.mon.get('T03n'):
            self.viol(st, 'the lists of tasks are exchanged without resetting the cursor', 'cursor')
            st.mon.pop('T03n')
        z = st.mon.pop('T03z', None)
        if z:
            q = self.queue(st, z[0][1], self.roles.processing[0])
            if q is None or q[0] == z[1][1] and self.is_zero(st, q[1]) is not True:
                self.viol(st, 'the cursor is reset although the list of tasks was not exchanged', 'reset')
        t = st.mon.pop('T03t', None)
        es = st.mon.pop('T03e', ())
        if t:
            el = OBJ(('el', t[1][1], t[2]))
            c = st.mem.get(el, EMPTY).get(16)
            if c is None or c[0] != ZERO:
                self.viol(st, 'the task taken stays in the queue', 'stay')
            self.n['task emptied'] += 1
            for e in es:
                if e[0] != ('#o', el):
                    self.viol(st, 'a task other than the next one is taken out of the queue', 'order')
                else:
                    st.mon['T03r'] = (e[1],)
        elif es:
            self.viol(st, 'a task is taken out of the queue without advancing the cursor', 'cursor2')

    def on_usercall(self, st, cv, args):
        r = st.mon.get('T03r')
        if r:
            st.mon.pop('T03r')
            self.n['task run'] += 1
            st.mon['T03x'] = ()
            if not self.same(st, r[0], cv, args):
                self.viol(st, 'the task that runs is not the one taken from the queue', 'wrong')
            st.mon['T03d'] = (cv,)
        elif st.mon.get('T03d') == (cv,):
            self.viol(st, 'a task runs more than once', 'twice')

    def same(self, st, inv, cv, args):
        return inv == cv

    def flush(self, st):
        if st.mon.pop('T03r', None):
            self.viol(st, 'a task is taken from the queue but does not run', 'drop')
        st.mon.pop('T03d', None)

    def on_end(self, st, kind, v):
        if kind in ('return', 'unwind'):
            self.flush(st)

    @classmethod
    def finish(cls, ctx):
        ctx.need('task taken', 5)
        ctx.need('task run', 5)
        ctx.need('exchange of buffers', 3)


class T07(Waking):
    id = 'T07'
    title = ('an exit request is stored under the lock of the thread context with wake flag and notification; with the exit flag '
             'set no waiting call reaches a blocking call nor goes round a waiting loop again')
    modes = ('normal', 'exit')
    WAITS = ('e_wait', 'e_sleep', 'e_process', 'e_cv_wait', 'e_sem_wait', 'e_future_wait', 'e_future_get', 'e_sfuture_wait',
             'e_sfuture_get', 'e_pool_wait')

    def start(self, st):
        self.exiting = self.mode == 'exit'

    def hook(self, st, o, off):
        if not self.exiting or OBJ.keys[o][0] not in ('*', 'H', 'arg'):
            return None
        f = self.eng.field(o, off)
        if f == self.roles.exit:
            return ONE
        if f == self.roles.status:
            return ZERO
        return None

    def waits(self):
        return self.eng.root.startswith(self.WAITS)

    def on_access(self, st, o, off, size, write, atomic, val):
        if self.exiting or not write or self.eng.field(o, off) != self.roles.exit:
            return
        if self.eng.shared(st, o):
            if val is not None and self.is_zero(st, val) is not False:
                self.viol(st, 'an exit request is taken back', 'reset')
                return
            self.n['exit request'] += 1
            self.noticed(st, o, 'an exit request is stored')
            k = self.registry_key(o)
            if self.eng.root == 'e_notify_for_exit':
                st.mon['T07x'] = True
                if k is None or self.truth(st, mk_eq(k, sym(('I', OBJ(('arg', 0, False, 'v')), 0)))) is not True:
                    self.viol(st, 'exit is requested of a thread other than the one named', 'other')

    def on_find(self, st, a, buf, key):
        if self.eng.root == 'e_notify_for_exit' and self.eng.owner_field(*a)[0] == self.roles.contexts:
            st.mon['T07f'] = (('#o', buf), key)

    def on_loaded(self, st, o, off, v):
        if self.exiting and self.eng.field(o, off) == self.roles.exit:
            self.n['exit flag consulted'] += 1
            st.mon['T07'] = True

    def on_block(self, st, what, cv, loc, timed):
        if not self.exiting or not self.waits():
            return
        self.viol(st, 'a thread that has been asked to exit blocks (%s)' % what, ('block', what))

    def on_cycle(self, st, depth, bb):
        if not self.exiting or not self.waits() or not st.mon.get('T07'):
            return
        fr = st.frames[depth]
        if not fr.fn.repo:
            return
        for x in list(fr.env.values()) + [c[0] for o, cs in st.mem.items() if OBJ.keys[o][0] == 'A' for c in cs.values()]:
            if self.advances(x, fr, bb):
                return
        self.viol(st, 'a thread that has been asked to exit keeps waiting in a loop', 'loop')

    def advances(self, x, fr, bb):
        """does the value count the rounds of the loop?"""
        if x[0] == 's':
            k = SYM.keys[x[1]]
            return k[0] == 'W' and k[1] == fr.ctx and k[2] == bb
        if x[0] == 'p':
            k = OBJ.keys[x[1]]
            return k[0] == 'el' and k[2][0] == 's' and self.advances(k[2], fr, bb) or k[0] == '*' and self.advances(k[1], fr, bb)
        return False

    def on_end(self, st, kind, v):
        r = self.eng.root
        if not self.exiting:
            self.settle(st)
            if r == 'e_notify_for_exit' and kind == 'return':
                f = st.mon.get('T07f')
                if not f:
                    self.viol(st, 'an exit request does not look for the thread', 'nolook')
                elif not st.mon.get('T07x') and self.truth(st, ('t', 'has', ('p', f[0][1], 0), f[1])) is not False:
                    self.viol(st, 'the exit request of a registered thread is dropped', 'drop')
            return
        if self.waits():
            self.n['wait ended'] += 1
        if r == 'e_notified_for_exit' and kind == 'return':
            self.n['query'] += 1
            if self.is_zero(st, v) is not False:
                self.viol(st, 'a thread asked to exit is told it was not', 'query')

    @classmethod
    def finish(cls, ctx):
        ctx.need('exit request', 2)
        ctx.need('exit flag consulted', 10)
        ctx.need('wait ended', 20)
        ctx.need('query', 1)


def linear(v, sign=1, acc=None):
    """{term: coefficient} of a sum, constant under None"""
    acc = {} if acc is None else acc
    if v[0] == 'i':
        acc[None] = acc.get(None, 0) + sign * signed(v[1], 8)
    elif v[0] == 't' and v[1] == 'add':
        linear(v[2], sign, acc)
        linear(v[3], sign, acc)
    elif v[0] == 't' and v[1] == 'sub':
        linear(v[2], sign, acc)
        linear(v[3], -sign, acc)
    elif v[0] == 't' and v[1] in ('zext', 'sext'):
        linear(v[2], sign, acc)
    else:
        acc[v] = acc.get(v, 0) + sign
    return acc


class T08(ThreadRule):
    id = 'T08'
    title = ('on every path through task execution increments and decrements of the depth cancel, it is one higher while the task '
             'runs, and the pending count returned is depth + unprocessed + queued read under the lock')

    def start(self, st):
        st.mon['T08'] = 0

    def on_access(self, st, o, off, size, write, atomic, val):
        f = self.eng.field(o, off)
        if f == self.roles.depth and write and self.eng.shared(st, o):
            d = None
            if write == 'rmw' and val and val[0] in ('add', 'sub') and val[1][0] == 'i':
                d = signed(val[1][1], 4 if val[1][1] < 2**32 else 8) * (1 if val[0] == 'add' else -1)
            elif write is True and val is not None:
                l = st.mon.get('T08v')
                if l is not None and split_add(val)[0] == split_add(l)[0]:
                    d = split_add(val)[1] - split_add(l)[1]
            self.n['change of the depth'] += 1
            if d is None:
                self.viol(st, 'the processing depth is set to something other than one more or less', 'set')
                return
            if o not in self.own(st):
                self.viol(st, 'the processing depth of another thread is changed', 'foreign')
            st.mon['T08'] += d
            if abs(st.mon['T08']) > 2:
                self.viol(st, 'the processing depth drifts', 'drift')
                st.mon['T08'] = 0
        elif f in self.roles.cursors and write and self.eng.shared(st, o) and val not in (ZERO, None):
            st.mon['T08t'] = True

    def on_loaded(self, st, o, off, v):
        if self.eng.field(o, off) == self.roles.depth:
            st.mon['T08v'] = v
            if self.eng.root == 'e_get_depth' and o in self.own(st):
                st.mon['T08g'] = v

    def on_usercall(self, st, cv, args):
        if st.mon.pop('T08t', None):
            self.n['task run'] += 1
            if st.mon['T08'] != 1:
                self.viol(st, 'a task runs with the processing depth raised by %d' % st.mon['T08'], 'run')

    def on_unlock(self, st, loc):
        if self.eng.root == 'e_pending' and self.field(loc) in self.roles.ctx_locks:
            o = loc[0]
            acc = {}
            for q in self.roles.queues:
                s = self.queue(st, o, q)
                if s is None:
                    return
                linear(s[1], 1, acc)
            for c in self.roles.cursors:
                v = self.flag(st, o, c)
                if v is not None:
                    linear(v, -1, acc)
            v = st.mon.get('T08v')
            if v is not None:
                linear(v, 1, acc)
            st.mon['T08p'] = tuple(sorted(((('i', 0) if k is None else k), c) for k, c in acc.items() if c))

    def on_end(self, st, kind, v):
        if kind in ('return', 'unwind') and st.mon['T08']:
            self.viol(st, 'the processing depth is left %s by %d' % ('raised' if st.mon['T08'] > 0 else 'lowered', abs(st.mon['T08'])),
                      ('end', kind))
        r = self.eng.root
        if kind != 'return':
            return
        if r == 'e_pending':
            e = st.mon.get('T08p')
            if e is None:
                if self.is_zero(st, v) is not True:
                    self.viol(st, 'a count is reported for a thread that is not registered', 'count0')
                return
            self.n['count reported'] += 1
            acc = {k: c for k, c in linear(v).items() if c}
            want = {(None if k == ('i', 0) else k): c for k, c in e}
            if acc != want:
                self.viol(st, 'the pending count reported is not the number of running, unprocessed and queued tasks', 'count')
        elif r == 'e_get_depth':
            g = st.mon.get('T08g')
            if g is not None:
                self.n['depth reported'] += 1
                if v != g:
                    self.viol(st, 'the depth reported is not the processing depth', 'depth')

    @classmethod
    def finish(cls, ctx):
        ctx.need('change of the depth', 10)
        ctx.need('task run', 5)
        ctx.need('count reported')
        ctx.need('depth reported')


class T09(ThreadRule):
    id = 'T09'
    title = ('a task is called by the thread that posts it only if the target is known to be that thread and the policy is not '
             'purely asynchronous, it is queued only otherwise, and each path does one of the two once unless the target '
             'is known not to be registered')

    LAUNCH = ('e_async_void', 'e_async_val', 'e_async_id', 'e_future_then', 'e_sfuture_then')
    NEW = ('_policy_', '_only_')
    only = staticmethod(lambda f: f.name.startswith(('e_invoke', 'e_dispatch')) or f.name.startswith(T09.LAUNCH)
                        and not any(x in f.name for x in T09.NEW) or not f.name.startswith('e_'))

    # mon: T09i target given, T09p policy given or (), T09o own id read, T09n (called, queued), T09k (key looked up, table),
    #      T09g the target is not registered, T09c a continuation was stored, T09v values read from the closure
    def start(self, st):
        r = self.eng.root
        self.kind = None
        st.mon['T09n'] = (0, 0)
        fn = self.eng.prog.fns[r]
        if not r.startswith('e_'):
            self.kind = 'closure'
            return
        self.kind = 'post' if r.startswith('e_invoke') else 'dispatch' if r.startswith('e_dispatch') else 'launch'
        # the target and the policy are the only scalars among the arguments
        vals = [(i, d) for i, d in enumerate(fn.ditypes[1:])]
        off = 1 if fn.sret == 0 else 0
        ids = [i + off for i, d in vals if fn.argtys[i + off] == 'i64' and not d.endswith(('&', '*'))]
        pol = [i + off for i, d in vals if fn.argtys[i + off] == 'i32' and not d.endswith(('&', '*'))]
        if len(ids) != 1:
            raise CheckError('no target in %s' % r)
        st.mon['T09i'] = sym(('I', OBJ(('arg', ids[0], False, 'v')), 0))
        st.mon['T09p'] = sym(('I', OBJ(('arg', pol[0], False, 'v')), 0)) if pol else ()

    def on_loaded(self, st, o, off, v):
        if self.eng.field(o, off) == self.roles.tid and o in self.own(st):
            st.mon['T09o'] = v
        elif self.kind == 'closure' and v[0] == 's' and self.captured(o):
            t = st.mon.get('T09v', ())
            if v not in t:
                st.mon['T09v'] = (t + (v,))[-8:]

    def captured(self, o):
        """is it (part of) the closure being run?"""
        k = OBJ.keys[o]
        if k[0] == 'arg':
            return k[3] == 'closure'
        if k[0] == '*' and k[1][0] == 's':
            x = SYM.keys[k[1][1]]
            return x[0] == 'I' and OBJ.keys[x[1]][0] == 'arg' and OBJ.keys[x[1]][3] == 'closure'
        return False

    def me(self, st):
        """values known to be the id of the calling thread"""
        res = [st.mon['T09o']] if 'T09o' in st.mon else []
        if any(self.is_zero(st, v) is True for _, v in self.tls_cells(st)):
            res.append(ZERO)
        return res

    def is_own(self, st, v):
        """True/False/None"""
        for m in self.me(st):
            t = self.truth(st, mk_eq(v, m)) if v != m else True
            if t is not None:
                return t
        return None

    def pure(self, st, p):
        """is the policy the purely asynchronous one?"""
        return self.truth(st, mk_eq(p, ONE)) if p else False

    def called(self, st):
        c, q = st.mon['T09n']
        st.mon['T09n'] = (min(c + 1, 2), q)
        self.n['called directly'] += 1
        if self.kind == 'post':
            self.viol(st, 'posting runs the task in the caller', 'post')
            return
        if self.kind == 'closure':
            vs = st.mon.get('T09v', ())
            own = any(self.is_own(st, v) is True or self.is_zero(st, v) is True for v in vs)
            if not own:
                self.viol(st, 'a continuation runs on a thread that may not be the one named', 'else')
            if not any(self.pure(st, v) is False for v in vs):
                self.viol(st, 'a purely asynchronous continuation runs directly', 'async')
            return
        i = st.mon['T09i']
        if self.is_own(st, i) is not True and not (self.kind == 'launch' and self.is_zero(st, i) is True):
            self.viol(st, 'a task runs on a thread that may not be the one named', 'else')
        if self.kind == 'launch' and self.pure(st, st.mon['T09p']) is not False:
            self.viol(st, 'a purely asynchronous task runs directly', 'async')

    def on_userfn(self, st, kind, fn, args):
        if kind == 'call' and self.kind != 'closure' and fn.base.startswith('operator('):
            self.called(st)

    def on_usercall(self, st, cv, args):
        a = self.eng.addr(args[0]) if args else None
        if self.kind == 'closure' and a and 'T09o' in st.mon and self.captured(a[0]):
            self.called(st)

    def on_find(self, st, a, buf, key):
        if self.eng.owner_field(*a)[0] == self.roles.contexts:
            st.mon['T09k'] = (key, ('#o', buf))

    def on_unlock(self, st, loc):
        if self.field(loc) in self.roles.reg_locks:
            k = st.mon.pop('T09k', None)
            if k and self.truth(st, has(k[1][1], k[0])) is False and self.is_target(st, k[0]):
                st.mon['T09g'] = True

    def is_target(self, st, k):
        if self.kind == 'closure':
            return True
        i = st.mon['T09i']
        return k == i or self.truth(st, mk_eq(k, i)) is True or \
            self.kind == 'launch' and self.is_zero(st, i) is True and self.is_own(st, k) is True

    def on_vec(self, st, o, base, old, new):
        f = self.eng.field(o, base)
        if f == self.roles.callbacks and pushed(old, new):
            st.mon['T09c'] = True
        if f != self.roles.pending or not self.eng.shared(st, o) or not pushed(old, new):
            return
        c, q = st.mon['T09n']
        st.mon['T09n'] = (c, min(q + 1, 2))
        self.n['queued'] += 1
        k = self.registry_key(o)
        if k is None or self.kind == 'post':
            return
        if self.kind == 'closure':
            vs = st.mon.get('T09v', ())
            if self.is_own(st, k) is not False and vs and not any(self.pure(st, v) is True for v in vs) and \
                    'T09o' in st.mon:
                self.viol(st, 'a continuation for the calling thread is queued instead of run', 'queued')
            return
        if not self.is_target(st, k):
            self.viol(st, 'a task is queued on a thread other than the one named', 'other')
        elif self.is_own(st, k) is not False and (self.kind == 'dispatch' or self.pure(st, st.mon['T09p']) is not True):
            self.viol(st, 'a task for the calling thread is queued instead of run', 'queued')

    def on_end(self, st, kind, v):
        if kind != 'return' or self.kind == 'closure':
            return
        c, q = st.mon['T09n']
        if c + q > 1:
            self.viol(st, 'a task is run and queued, or twice', 'twice')
        elif c + q:
            self.n['path with one outcome'] += 1
        elif not st.mon.get('T09c') and not st.mon.get('T09g') and not self.refused(st):
            self.viol(st, 'a task is neither run nor queued', 'lost')

    def refused(self, st):
        if self.eng.root == 'e_invoke_task':
            m = self.peek(st, OBJ(('arg', 1, False, '')), 16)
            if self.is_zero(st, m) is True:
                return True
        return self.is_zero(st, st.mon['T09i']) is True

    @classmethod
    def finish(cls, ctx):
        ctx.need('called directly', 10)
        ctx.need('queued', 20)
        ctx.need('path with one outcome', 20)


class T10(ThreadRule):
    id = 'T10'
    title = ('what is stored for a task that is queued, attached to a future, kept by a pool or started as a thread (followed '
             'through everything it owns) contains no pointer to a local variable or an argument of the call storing it; '
             'what a stored task calls is part of it')

    def owned(self, st, o, res, depth=0):
        """(holder, offset, target) for all pointers in what the object owns"""
        if depth > 8:
            return
        for h, t in st.mon.get('T10', ()):
            if h[1] == o:
                res.append((o, 0, t[1]))
        for off, x in st.mem.get(o, EMPTY).items():
            v = x[0]
            if not isinstance(off, int) or not isinstance(v, tuple) or v[0] != 'p':
                continue
            b = base_obj(v[1])
            k = OBJ.keys[b][0]
            if k in ('A', 'arg') and b != base_obj(o):
                res.append((o, off, v[1]))
            elif k == 'H' and b not in self.seen:
                self.seen.add(b)
                self.owned(st, b, res, depth + 1)
                for e in list(st.mem):
                    if e != b and base_obj(e) == b:
                        self.owned(st, e, res, depth + 1)

    def on_escape(self, st, v):
        # the contents are forgotten as soon as others can reach them
        o = base_obj(v[1])
        if OBJ.keys[o][0] != 'H' or o in st.esc:
            return
        self.seen = {o}
        res = []
        self.owned(st, o, res)
        res = {(('#o', o), ('#o', t)) for h, off, t in res if not self.meant(t)}
        if res:
            st.mon['T10'] = tuple(sorted(res | set(st.mon.get('T10', ()))))

    @staticmethod
    def meant(t):
        """an argument meant to be shared"""
        k = OBJ.keys[base_obj(t)]
        return k[0] == 'arg' and k[2]

    def stored(self, st, o, how):
        self.n['task stored', how] += 1
        self.seen = {o}
        res = []
        self.owned(st, o, res)
        for h, off, t in res:
            k = OBJ.keys[base_obj(t)]
            if self.meant(t):
                continue
            self.viol(st, 'a task that is %s keeps a pointer to %s of the call' %
                      (how, 'an argument' if k[0] == 'arg' else 'a local variable'), how)
            return

    def on_vec(self, st, o, base, old, new):
        f = self.eng.field(o, base)
        if not pushed(old, new):
            return
        if f == self.roles.pending:
            how = 'queued'
        elif f == self.roles.callbacks:
            how = 'attached to a future'
        else:
            return
        if self.eng.shared(st, o):
            self.stored(st, self.eng.elem(new[0], old[1]), how)

    def on_spawn(self, st, v):
        a = self.eng.addr(v)
        if not a or OBJ.keys[a[0]][0] != 'H':
            raise CheckError('the state of a new thread is unknown')
        self.stored(st, a[0], 'started as a thread')

    def on_access(self, st, o, off, size, write, atomic, val):
        # stored in the table of jobs
        if write is True and val and val[0] == 'p' and OBJ.keys[o][0] == 'nd' and \
                self.eng.owner_field(o, 0)[0] == self.roles.jobs and OBJ.keys[base_obj(val[1])][0] == 'H':
            self.stored(st, base_obj(val[1]), 'kept by a pool')

    def on_userfn(self, st, kind, fn, args):
        if kind != 'call' or self.eng.root.startswith('e_') or not fn.base.startswith('operator('):
            return
        i = 1 if fn.sret == 0 else 0
        a = self.eng.addr(args[i])
        self.n['stored task called'] += 1
        if not a or OBJ.keys[base_obj(a[0])][0] not in ('*', 'arg', 'H', 'A'):
            self.viol(st, 'a stored task calls something it does not own', 'call')

    @classmethod
    def finish(cls, ctx):
        ctx.need('task stored', 50)
        for k in ('queued', 'attached to a future', 'started as a thread', 'kept by a pool'):
            if not ctx.n['task stored', k]:
                ctx.need('task ' + k)
        ctx.need('stored task called', 5)


RULES = [T01, T02, T03, T07, T08, T09, T10]
