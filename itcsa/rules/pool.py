"""J01-J05: the thread pool."""
from .base import *
from .futures import bump
from .registry import RegistryRule
from .threads import pushed
from ..models import has

STOPS = ('e_pool_stop', 'e_job_stop')                           # one job
STOP_ALL = ('e_pool_stop_all', 'e_pool_dtor', 'e_pool_assign')  # all of them
SCHEDULES = ('e_pool_schedule_void', 'e_pool_schedule_val', 'e_pool_schedule_default')


def pool_roots(f):
    return f.name.startswith(('e_pool', 'e_job')) or not f.name.startswith('e_') and 'thread_pool' in f.name


class PoolRule(RegistryRule):
    only = staticmethod(pool_roots)

    def start(self, st):
        self.pending = []
        self.layout()

    def layout(self):
        """where in an entry of the job table the callable and the future are"""
        t = self.roles.type(self.roles.jobs)
        vt = targs(t)[1]
        tree = strip_targs(t) == 'std::map'
        self.keyoff = 32 if tree else 8
        self.fun, self.fut = [], []

        def scan(r, base):
            for m in r['members']:
                if m[3].startswith('std::function<'):
                    self.fun.append(base + m[1])
                elif m[3].startswith('std::shared_ptr<') and 'state' in m[3]:
                    self.fut.append(base + m[1])
                else:
                    q = self.eng.repo_record(m[3], m[2])
                    if q:
                        scan(q, base + m[1])
        r = self.eng.prog.record_for(vt)
        if not r:
            raise CheckError('the job table does not hold records of this repository')
        scan(r, self.keyoff + 8)
        if len(self.fun) != 1 or len(self.fut) != 1:
            raise CheckError('cannot tell callable and future of a job')
        self.mgr, self.inv, self.fut = self.fun[0] + 16, self.fun[0] + 24, self.fut[0]

    # ------------------------------------------------------------ helpers
    def is_table(self, a):
        return self.eng.owner_field(*a)[0] == self.roles.jobs

    def is_job(self, o):
        return OBJ.keys[o][0] == 'nd' and self.eng.owner_field(o, 0)[0] == self.roles.jobs

    def entry(self, buf, key):
        return OBJ(('nd', buf, key, self.keyoff))

    def pool_locked(self, st):
        return any(self.field(l) in self.roles.pool_locks for l in st.locks)

    def worker(self):
        return not self.eng.root.startswith('e_')

    def callable_empty(self, st, o):
        """True/False/None: is the callable of the entry empty?"""
        return self.is_zero(st, self.peek(st, o, self.mgr))

    def job_of(self, cv):
        """the entry whose callable this invoker was read from"""
        a = self.origin(cv)
        return a[0] if a and self.is_job(a[0]) and a[1] == self.inv else None

    def about(self, st, key, job):
        """does the key name the job? job is (entry, key)"""
        a = self.origin(key)
        return self.same(st, key, job[1]) or bool(a) and a[0] == job[0][1]


class J01(PoolRule):
    id = 'J01'
    title = ('a job is run only by a worker that took its callable out of the table, in a critical section of the pool, and then '
             'once; a callable taken out is run; stopping removes the entries whose callable is still there, all of them or the '
             'one named, and no other; a new entry has a callable and a number never used before')

    # mon: J01t callables taken out (entry, invoker, key, manager); J01r (entry, key) of the job that ran; J01f (entry,) looked up by stop;
    #      J01s a stop looked; J01v (entry,) visited by stop_all; J01e the traversal ended; J01i (entry, key, pool) just inserted
    def start(self, st):
        super().start(st)
        st.mon['J01t'] = ()

    def on_access(self, st, o, off, size, write, atomic, val):
        if not write:
            return
        k = st.mon.get('J01k')
        if k is not None and val is not None and self.eng.root in SCHEDULES and size == 8 and write is True:
            f = self.eng.field(o, off)
            if f and self.same(st, val, k):
                self.data.append(('number', f))
        if off != self.mgr or not self.is_job(o):
            return
        if not self.pool_locked(st):
            self.viol(st, 'the callable of a job is changed without the lock of the pool', 'lock')
            return
        i = st.mon.get('J01i')
        if i and i[0] == ('#o', o):
            return
        c = st.mem.get(o, EMPTY).get(off)
        if val == ZERO:
            if c and self.is_zero(st, c[0]) is True:
                return
            e = (('#o', o), self.peek(st, o, self.inv), OBJ.keys[o][2], self.peek(st, o, self.mgr))
            if not any(x[0] == e[0] for x in st.mon['J01t']):
                self.n['callable taken'] += 1
                st.mon['J01t'] += (e,)
        elif not (c and c[0] == val):
            self.viol(st, 'the callable of a job is replaced', 'replace')

    def on_usercall(self, st, cv, args):
        a = self.eng.addr(args[0]) if args else None
        if a and self.is_job(a[0]):
            self.viol(st, 'a job is run out of the table: another worker may run it again', 'inplace')
            return
        o = self.job_of(cv)
        if o is None:
            return
        self.n['job run'] += 1
        t = [x for x in st.mon['J01t'] if x[1] == cv]
        if not t:
            self.viol(st, 'a job is run that was not taken out of the table, or run again', 'again')
            return
        st.mon['J01t'] = tuple(x for x in st.mon['J01t'] if x[1] != cv)
        st.mon['J01r'] = (t[0][0], t[0][2])

    def on_map_erase(self, st, a, buf, key):
        if not self.is_table(a):
            return
        self.n['entry removed'] += 1
        o = self.entry(buf, key)
        if not self.pool_locked(st):
            self.viol(st, 'a job is removed without the lock of the pool', 'lock')
        e = any(x[0] == ('#o', o) for x in st.mon['J01t'])
        sure = any(x[0] == ('#o', o) and self.is_zero(st, x[3]) is False for x in st.mon['J01t'])
        ran = st.mon.get('J01r') and self.about(st, key, st.mon['J01r'])
        if e and (ran or not self.worker()):
            st.mon['J01t'] = tuple(x for x in st.mon['J01t'] if x[0] != ('#o', o))
        if ran:
            st.mon.pop('J01r')
        elif sure:
            pass
        elif self.worker() and any(self.same(st, x[2], key) for x in st.mon['J01t']):
            pass
        elif e or self.callable_empty(st, o) is not False:
            self.viol(st, 'a job that may be running is removed', 'running')
        for m in ('J01v', 'J01f'):
            if st.mon.get(m) == (('#o', o),):
                st.mon.pop(m)

    # ---- stopping
    def on_find(self, st, a, buf, key):
        if self.is_table(a) and self.eng.root in STOPS:
            self.n['job looked up to stop it'] += 1
            st.mon['J01f'] = (('#o', self.entry(buf, key)),)
            st.mon['J01s'] = True
            k = self.origin(key)
            self.data.append(('stopped', self.eng.root, self.eng.field(*k) if k else None))

    def on_erase_key(self, st, a, buf, key):
        if self.is_table(a) and self.eng.root in STOPS:
            st.mon['J01s'] = True

    def left(self, st, o):
        k = OBJ.keys[o]
        if self.truth(st, has(k[1], k[2])) is False:
            return False
        return self.callable_empty(st, o) is not True

    def visit(self, st, o):
        v = st.mon.pop('J01v', None)
        if v and self.left(st, v[0][1]):
            self.viol(st, 'stopping all jobs leaves one that has not started', 'all')
        if o is not None:
            st.mon['J01v'] = (('#o', o),)

    def on_iterate(self, st, a, buf, key):
        if self.is_table(a) and self.eng.root in STOP_ALL:
            self.n['table visited'] += 1
            self.visit(st, self.entry(buf, key))

    on_next = on_iterate

    def on_iterend(self, st, a, buf):
        if self.is_table(a) and self.eng.root in STOP_ALL:
            self.visit(st, None)
            self.n['table covered'] += 1
            st.mon['J01e'] = True

    def on_map_clear(self, st, a, buf):
        if self.is_table(a):
            self.viol(st, 'all jobs are removed, running ones included', 'clear')

    def on_unlock(self, st, loc):
        if self.field(loc) not in self.roles.pool_locks:
            return
        f = st.mon.pop('J01f', None)
        if f and self.left(st, f[0][1]):
            self.viol(st, 'stopping a job leaves it although it has not started', 'stop')
        v = st.mon.pop('J01v', None)
        if v:
            self.viol(st, 'stopping all jobs does not look at all of them', 'part')
        i = st.mon.pop('J01i', None)
        if i:
            o, key, pool = i[0][1], i[1], i[2][1]
            self.n['job inserted'] += 1
            if self.callable_empty(st, o) is not False:
                self.viol(st, 'a job is inserted without a callable', 'hollow')
            if not any(self.fresh(st, pool, key, f) for f in self.roles.job_ids):
                self.viol(st, 'the number of a new job may be used again', 'number')

    def fresh(self, st, pool, key, f):
        off = self.member(st, pool, f)
        c = st.mem.get(pool, EMPTY).get(off) if off is not None else None
        if not c:
            return False
        b, d = split_add(c[0])
        b0, d0 = split_add(key)
        return b == b0 and d > d0

    def on_map_insert(self, st, a, buf, key):
        if self.is_table(a):
            o, off = self.eng.owner_field(*a)[1:]
            st.mon['J01i'] = (('#o', self.entry(buf, key)), key, ('#o', o))
            st.mon['J01k'] = key
            k = self.origin(split_add(key)[0])
            if not k or self.eng.field(*k) not in self.roles.job_ids or not self.pool_locked(st):
                self.viol(st, 'the number of a new job is not taken from the counter of the pool', 'source')

    def on_map_hit(self, st, a, buf, key):
        if self.is_table(a) and self.eng.root in SCHEDULES:
            self.viol(st, 'a new job may replace another one', 'hit')

    def on_end(self, st, kind, v):
        if kind not in ('return', 'unwind'):
            return
        if self.worker():
            if any(self.is_zero(st, x[3]) is not True for x in st.mon['J01t']):
                self.viol(st, 'a job is taken by a worker and not run', 'drop')
        if kind == 'return' and self.eng.root == 'e_pool_stop' and 'J01s' not in st.mon:
            self.viol(st, 'stopping a job does not look for it', 'noop')
        if kind == 'return' and self.eng.root == 'e_pool_stop_all' and 'J01e' not in st.mon:
            self.viol(st, 'stopping all jobs does not look at all of them', 'noop')
        if self.eng.root in SCHEDULES:
            if kind == 'return' and 'J01k' not in st.mon:
                self.viol(st, 'scheduling does not store the job', 'store')

    @classmethod
    def finish(cls, ctx):
        ctx.need('callable taken', 4)
        ctx.need('job run', 1)
        ctx.need('entry removed', 4)
        ctx.need('job looked up to stop it', 2)
        ctx.need('table visited', 3)
        ctx.need('table covered', 3)
        ctx.need('job inserted', 3)
        given = {d[1] for d in ctx.data if d[0] == 'number'}
        for d in ctx.data:
            if d[0] == 'stopped' and d[1] == 'e_job_stop' and d[2] not in given:
                ctx.violate('the handle of a job stops another one: it uses %s' % d[2], '')


class J03(PoolRule):
    id = 'J03'
    title = ('a worker removes the entry of a job after it ran it, not before, on every path; the future stored in an entry is the one '
             'the stored callable completes and stays there as long as the entry; waiting looks the job up in a critical section and '
             'returns when nothing was found, its future is ready or an exit is requested; waiting for all does so for every entry')
    WALKS = ('J03b',)
    only = staticmethod(lambda f: pool_roots(f) or not f.name.startswith('e_'))

    # mon: J03t (entry, invoker, key) taken; J03r (entry, key) ran; J03k (table, key) looked up; J03i entry inserted; J03m entries whose
    #      future was taken; J03f entry a wait looked up; J03s its future's state; J03n a wait found nothing;
    #      J03v (entry, collected) visited; J03e all collected; J03c (list, where); J03b (list, size, next index, (index, state));
    #      J03x value of the exit flag
    def start(self, st):
        super().start(st)
        st.mon['J03t'] = ()

    def waiting(self):
        return self.eng.root in ('e_pool_wait', 'e_pool_wait_all')

    def on_access(self, st, o, off, size, write, atomic, val):
        v = st.mon.get('J03v')
        if write and v and not v[1] and val is not None and OBJ.keys[o][0] == 'el' and val == OBJ.keys[v[0][1]][2]:
            self.n['job collected'] += 1
            st.mon['J03v'] = (v[0], True)
        if not write or not self.is_job(o) or st.mon.get('J03i') == ('#o', o):
            return
        if off == self.mgr and val == ZERO:
            c = st.mem.get(o, EMPTY).get(off)
            if not (c and self.is_zero(st, c[0]) is True) and not any(x[0] == ('#o', o) for x in st.mon['J03t']):
                st.mon['J03t'] += ((('#o', o), self.peek(st, o, self.inv), OBJ.keys[o][2], self.peek(st, o, self.mgr)),)
        elif off == self.fut:
            c = st.mem.get(o, EMPTY).get(off)
            if not (c and c[0] == val) and ('#o', o) not in st.mon.get('J03m', ()):
                st.mon['J03m'] = st.mon.get('J03m', ()) + (('#o', o),)

    # ---- running
    def on_usercall(self, st, cv, args):
        o = self.job_of(cv)
        if o is None or not self.worker():
            return
        t = [x for x in st.mon['J03t'] if x[1] == cv]
        if t:
            self.n['job run'] += 1
            st.mon['J03t'] = tuple(x for x in st.mon['J03t'] if x[1] != cv)
            st.mon['J03r'] = (t[0][0], t[0][2])

    def on_map_erase(self, st, a, buf, key):
        if not self.is_table(a):
            return
        o = self.entry(buf, key)
        if st.mon.get('J03m'):
            st.mon['J03m'] = tuple(x for x in st.mon['J03m'] if x != ('#o', o))
        r = st.mon.get('J03r')
        if r and self.about(st, key, r):
            self.n['job removed after it ran'] += 1
            st.mon.pop('J03r')
        elif self.worker() and any(self.about(st, key, (x[0], x[2])) for x in st.mon['J03t']):
            self.viol(st, 'a job is removed before it has finished: waiting for it does not wait', 'early')
        elif not self.worker():
            # whoever stops jobs removes those that have not been taken
            t = [x for x in st.mon['J03t'] if x[0] == ('#o', o)]
            if not (self.is_zero(st, t[0][3]) is False if t else self.callable_empty(st, o) is False):
                self.viol(st, 'a job that may be running is removed: waiting for it does not wait', 'running')
            st.mon['J03t'] = tuple(x for x in st.mon['J03t'] if x[0] != ('#o', o))

    def on_find(self, st, a, buf, key):
        if not self.is_table(a):
            return
        st.mon['J03k'] = (('#o', buf), key)
        if self.waiting():
            k = self.origin(key)
            w = st.mon.get('J03b')
            if self.eng.root == 'e_pool_wait' and not (k and OBJ.keys[k[0]][:2] == ('arg', 1)):
                return
            if self.eng.root == 'e_pool_wait_all' and not (w and w[3] and w[3][1] == key):
                return
            st.mon.pop('J03s', None)
            st.mon.pop('J03n', None)
            self.n['wait looked'] += 1
            if not self.pool_locked(st):
                self.viol(st, 'a job is looked up without the lock of the pool', 'lock')
            st.mon['J03f'] = ('#o', self.entry(buf, key))

    def on_loaded(self, st, o, off, v):
        if not self.waiting():
            return
        if off == self.fut and st.mon.get('J03f') == ('#o', o):
            st.mon['J03s'] = v
        if self.eng.field(o, off) == self.roles.exit:
            st.mon['J03x'] = v
        k = OBJ.keys[o]
        if k[0] == 'el' and k[2][0] != '@' and 'J03e' in st.mon and off == 0:
            self.step(st, k[1], k[2], v)

    def leaving(self, st):
        e = st.mon.get('J03x')
        if e is not None and self.is_zero(st, e) is False:
            return True
        return any(self.is_zero(st, v) is True for t, v in self.tls_cells(st))

    def done(self, st, v):
        a = self.eng.addr(v)
        return self.is_zero(st, v) is True or bool(a) and self.ready(st, a[0]) or self.leaving(st)

    def found(self, st, key):
        """was this the number last looked up to wait for?"""
        f = st.mon.get('J03f')
        return bool(f) and OBJ.keys[f[1]][2] == key

    def looked(self, st):
        s = st.mon.get('J03s')
        return 'J03n' in st.mon or s is not None and self.done(st, s)

    def absent(self, st, buf, key):
        return self.truth(st, has(buf, key)) is False

    def on_unlock(self, st, loc):
        w = st.mon.get('J03b')
        if w and w[3] and self.field(loc) in self.roles.state_locks:
            if self.looked(st) if self.found(st, w[3][1]) else w[3][1] != ONE and self.done(st, w[3][1]):
                self.n['job waited for'] += 1
                st.mon['J03b'] = w[:3] + ((w[3][0], ONE),)
        if self.field(loc) not in self.roles.pool_locks:
            return
        k = st.mon.pop('J03k', None)
        if k:
            gone = self.absent(st, k[0][1], k[1])
            r = st.mon.get('J03r')
            if r and gone and self.about(st, k[1], r):
                st.mon.pop('J03r')
            f = st.mon.get('J03f')
            if f and gone and f[1] == self.entry(k[0][1], k[1]):
                st.mon['J03n'] = True
        self.futures_left(st)
        i = st.mon.pop('J03i', None)
        if i:
            self.inserted(st, i[1])
        v = st.mon.pop('J03v', None)
        if v:
            self.viol(st, 'waiting for all jobs does not look at all of them', 'part')
        c = st.mon.get('J03c')
        if c and 'J03e' in st.mon and 'J03b' not in st.mon:
            fr = next(x for x in reversed(st.frames) if not isinstance(x, NFrame))
            q = self.eng.sequence(st, *c[1][1:], fr, fr.ins())
            if q and q[0] == c[0][1]:
                st.mon['J03b'] = (c[0], q[1], (ZERO,), ())

    def futures_left(self, st):
        for e in st.mon.pop('J03m', ()):
            y = OBJ.keys[e[1]]
            if not self.absent(st, y[1], y[2]):
                self.viol(st, 'the future of a job is taken away or replaced while the job remains', 'future')

    # ---- insertion: callable and future belong together
    def on_map_insert(self, st, a, buf, key):
        if self.is_table(a):
            st.mon['J03i'] = ('#o', self.entry(buf, key))

    def inserted(self, st, o):
        self.n['job inserted'] += 1
        v = self.peek(st, o, self.fut)
        f = self.peek(st, o, self.inv)
        if f[0] == 'f':
            self.data.append(('runs', f[1]))
        if v[0] != 'p' and not (v[0] in 'st' and self.is_zero(st, v) is False):
            self.viol(st, 'a job is inserted without a future', 'hollow')
        elif not self.reaches(st, self.peek(st, o, self.fun[0]), v):
            self.viol(st, 'the future of a job is not the one its callable completes', 'other')

    def reaches(self, st, v, want, depth=4):
        if v == want:
            return True
        a = self.eng.addr(v) if depth and v[0] == 'p' else None
        return bool(a) and any(self.reaches(st, c[0], want, depth - 1) for off, c in st.mem.get(a[0], EMPTY).items()
                               if isinstance(off, int) and isinstance(c, tuple) and c[0][0] == 'p')

    # ---- waiting for all
    def visit(self, st, o):
        v = st.mon.pop('J03v', None)
        if v and not v[1]:
            c = self.cell(st, v[0][1], self.fut)
            if c is None or not self.done(st, c):
                self.viol(st, 'waiting for all jobs leaves one out', 'skip')
        if o is not None:
            st.mon['J03v'] = (('#o', o), False)

    def on_iterate(self, st, a, buf, key):
        if self.is_table(a):
            self.futures_left(st)
        if self.is_table(a) and self.eng.root == 'e_pool_wait_all':
            if not self.pool_locked(st):
                self.viol(st, 'the table is visited without the lock of the pool', 'lock')
            self.visit(st, self.entry(buf, key))

    on_next = on_iterate

    def on_iterend(self, st, a, buf):
        if self.is_table(a) and self.eng.root == 'e_pool_wait_all':
            self.n['all collected'] += 1
            self.visit(st, None)
            st.mon['J03e'] = True

    def on_retain(self, st, pi):
        v = st.mon.get('J03v')
        if v and pi and pi[0] == 't':
            a = self.origin(pi[2])
            if a and a == (v[0][1], self.fut):
                self.n['job collected'] += 1
                st.mon['J03v'] = (v[0], True)

    def on_vec(self, st, o, base, old, new):
        c = st.mon.get('J03c')
        if new and new[0] is not None and ('J03v' in st.mon or c and c[0] == ('#o', new[0])):
            st.mon['J03c'] = (('#o', new[0]), ('#o', o, base))

    def step(self, st, buf, i, v):
        w = st.mon.get('J03b')
        if not w or w[0] != ('#o', buf):
            return
        if w[3] and w[3][0] == i:
            return
        if any(n == i or self.truth(st, mk_eq(n, i)) is True for n in w[2]):
            self.finished(st, w)
            st.mon['J03b'] = w[:2] + (tuple(bump(self.eng, n) for n in w[2]), (i, v))

    def finished(self, st, w):
        if w[3] and w[3][1] != ONE:
            self.n['job waited for'] += 1
            if self.found(st, w[3][1]):
                if not self.looked(st):
                    self.viol(st, 'waiting for all jobs goes on to the next one before this one has finished', 'next')
            elif not self.done(st, w[3][1]):
                self.viol(st, 'waiting for all jobs goes on to the next one before this one is ready', 'next')

    def on_end(self, st, kind, v):
        if kind == 'unwind' and self.worker():
            self.data.append(('throws', self.eng.root))
        if kind != 'return':
            return
        if self.worker():
            if 'J03r' in st.mon:
                self.viol(st, 'a job that has run stays in the table', 'stays')
        elif self.eng.root == 'e_pool_count':
            self.n['jobs counted'] += 1
            a = self.origin(v)
            own = self.eng.bufowner.get(a[0]) if a and a[1] == 'S' else None
            if not own or self.eng.owner_field(*own)[0] != self.roles.jobs:
                self.viol(st, 'the number of jobs is not the number of entries of the table', 'count')
        elif self.eng.root == 'e_pool_wait':
            self.n['wait ended'] += 1
            if 'J03f' not in st.mon:
                self.viol(st, 'waiting for a job does not look for it', 'look')
            elif not self.looked(st):
                self.viol(st, 'waiting for a job returns although the job may not have finished', 'wait')
        elif self.eng.root == 'e_pool_wait_all':
            self.n['wait for all ended'] += 1
            if 'J03e' not in st.mon:
                self.viol(st, 'waiting for all jobs does not look at all of them', 'noop')
                return
            c, w = st.mon.get('J03c'), st.mon.get('J03b')
            if not c:
                return
            if w:
                self.finished(st, w)
            if not w or not any(self.truth(st, mk_ult(n, w[1])) is False for n in w[2]):
                self.viol(st, 'waiting for all jobs returns before the last one', 'rest')

    @classmethod
    def finish(cls, ctx):
        ctx.need('job run')
        ctx.need('job removed after it ran')
        ctx.need('job inserted', 3)
        ctx.need('jobs counted')
        ctx.need('wait looked')
        ctx.need('wait ended', 2)
        ctx.need('all collected')
        ctx.need('job collected')
        ctx.need('job waited for')
        ctx.need('wait for all ended', 2)
        if ctx.violations:
            return
        throws = {d[1] for d in ctx.data if d[0] == 'throws'}
        for f in sorted({d[1] for d in ctx.data if d[0] == 'runs'} & throws):
            ctx.violate('a job may end by an exception, so that its entry is never removed', f)


class J04(PoolRule):
    id = 'J04'
    title = ('when a pool is destroyed or assigned over, its workers are joined before its table of jobs, its queues or the pool '
             'itself is destroyed; none is detached, and the lock of the pool is not held while joining or destroying a job')
    ENDS = ('e_pool_dtor', 'e_pool_assign')
    only = staticmethod(lambda f: f.name.startswith('e_pool'))

    # mon: J04w (table the workers were moved to,); J04j workers joined; J04c the workers are visited, the last one joined or not
    def ends(self):
        return self.eng.root in self.ENDS

    def part(self, a):
        f, o, off = self.eng.owner_field(*a)
        return f if f in (self.roles.jobs, self.roles.workers, self.roles.pqs) else None

    def on_map_insert(self, st, a, buf, key):
        if self.part(a) == self.roles.workers and not self.eng.root.startswith('e_pool_ctor'):
            if self.truth(st, has(buf, key)) is not True:
                self.data.append(('hire', self.eng.root, self.eng.where(st)))

    def workers(self, st, a):
        """is it the table of workers, or what it was moved to?"""
        w = st.mon.get('J04w')
        return self.part(a) == self.roles.workers or bool(w) and w[0] == ('#o',) + tuple(a)

    def on_map_move(self, st, b, a):
        if not self.ends():
            return
        if self.workers(st, b):
            self.n['workers taken'] += 1
            st.mon['J04w'] = (('#o',) + tuple(a),)

    def joined(self, st, a):
        if self.ends() and self.workers(st, a) and (self.part(a) is None or 'J04w' not in st.mon):
            self.n['workers joined'] += 1
            st.mon['J04j'] = True

    def on_map_clear(self, st, a, buf):
        self.joined(st, a)

    def on_map_dtor(self, st, a, buf):
        if not self.ends():
            return
        self.joined(st, a)
        f = self.part(a)
        if f and f != self.roles.workers:
            self.n['table destroyed'] += 1
            self.need_joined(st, f)

    def need_joined(self, st, f):
        if 'J04j' not in st.mon:
            self.viol(st, '%s is destroyed before the workers of the pool are joined' % f, 'early')

    # ---- joining one by one
    def on_iterate(self, st, a, buf, key):
        if self.ends() and self.workers(st, a):
            st.mon['J04c'] = False

    def on_iterend(self, st, a, buf):
        if self.ends() and self.workers(st, a):
            if st.mon.pop('J04c', True):
                st.mon['J04j'] = True

    def on_join(self, st, a):
        if not self.ends():
            return
        self.n['worker joined'] += 1
        if self.pool_locked(st):
            self.viol(st, 'a worker is joined while the lock of the pool is held: it may be waiting for it', 'lock')
        if 'J04c' in st.mon:
            st.mon['J04c'] = True

    def on_detach(self, st, a):
        if self.ends():
            self.viol(st, 'a worker is detached: it may run on after the pool is gone', 'detach')

    def on_user(self, st, kind, what):
        if self.ends() and kind == 'destroy' and not what.startswith('user::val'):
            self.n['job destroyed'] += 1
            if self.pool_locked(st):
                self.viol(st, 'a job is destroyed while the lock of the pool is held', 'locked')

    def on_free(self, st, o):
        if self.ends() and self.is_pool(st, o):
            self.n['pool destroyed'] += 1
            self.need_joined(st, 'the pool')

    def is_pool(self, st, o):
        return self.member(st, o, self.roles.jobs) is not None

    @classmethod
    def finish(cls, ctx):
        ctx.need('workers joined', 2)
        ctx.need('worker joined', 2)
        ctx.need('table destroyed', 4)
        ctx.need('job destroyed', 2)
        ctx.need('pool destroyed', 2)
        for d in ctx.data:
            if d[0] == 'hire':
                ctx.violate('a worker may be added while the pool is being destroyed', d[2])


class J05(PoolRule):
    id = 'J05'
    title = ('a job handle reaches a pool only through the shared note it refers to weakly, having found that it still exists; the note of every '
             'pool that has jobs is its own and names that pool, after construction, move and assignment as well; a pool given up '
             'gives up its note before anything of it is taken down; scheduling puts the note of the pool into the handle')
    USES = ('e_job_stop', 'e_job_change_priority')
    ENDS = ('e_pool_dtor', 'e_pool_assign')
    KEEPS = ('e_pool_ctor', 'e_pool_ctor_default', 'e_pool_move', 'e_pool_assign')
    only = staticmethod(lambda f: f.name in J05.USES + J05.ENDS + J05.KEEPS + ('e_pool_schedule_default',))

    # mon: J05s the note got by the handle; J05u the pool was reached; J05l (pool, note) read first; J05r note given up;
    #      J05n (where, pool) pointers to pools stored
    def start(self, st):
        super().start(st)
        self.parts()
        st.mon['J05l'] = ()

    def parts(self):
        """the record users hold: pointer to the pool proper and note; and the record of a handle with its weak reference"""
        pool = self.roles.pool
        for f, m in sorted(self.roles.mem.items()):
            t = m[3]
            if 'unique_ptr<' in t and strip_targs(targs(t)[0]).split('::')[-1] == pool:
                self.impl = f
        self.outer = self.roles.rec(self.impl)
        self.note = self.roles.one('note of a pool', self.roles.fields(
            self.outer, lambda t: strip_targs(t) == 'std::shared_ptr' and self.outer in t))
        self.weak = self.roles.one('reference of a handle', [
            f for f, m in self.roles.mem.items() if strip_targs(m[3]) == 'std::weak_ptr' and targs(m[3])[0] == targs(self.roles.type(self.note))[0]])

    def arg(self, i):
        return OBJ(('arg', i, False, ''))

    # ---- use of a handle
    def chain(self, o):
        """the locations an object was reached through"""
        res = []
        for _ in range(6):
            k = OBJ.keys[o]
            if k[0] != '*':
                break
            a = self.origin(k[1])
            if not a:
                break
            res.append(a)
            o = a[0]
        return res

    def on_retain(self, st, pi):
        if self.eng.root in self.USES and pi and pi[0] == 't':
            a = self.origin(pi[2])
            if a and self.eng.field(*a) == self.weak:
                self.n['note got'] += 1
                st.mon['J05s'] = pi[2]

    def on_release(self, st, pi):
        if self.eng.root in self.ENDS and pi and pi[0] == 't':
            a = self.origin(pi[2])
            if a and a[0] == self.arg(0) and self.eng.field(*a) == self.note:
                self.n['note given up'] += 1
                st.mon['J05r'] = True

    def on_access(self, st, o, off, size, write, atomic, val):
        if write and self.eng.root in self.KEEPS and val is not None:
            p = self.eng.addr(val) if val[0] == 'p' else None
            if p and p[0] in self.pools(st):
                n = tuple(x for x in st.mon.get('J05n', ()) if x[0] != ('#o', o, off))
                st.mon['J05n'] = n + ((('#o', o, off), ('#o',) + tuple(p)),)
        if self.eng.root not in self.USES or OBJ.keys[o][0] != '*':
            return
        f = self.eng.field(o, off)
        if not f or self.roles.rec(f) not in (self.outer, self.roles.pool):
            return
        self.n['pool used through a handle'] += 1
        st.mon['J05u'] = True
        if 'J05s' not in st.mon:
            self.viol(st, 'a handle uses a pool without having seen the note that it still exists', 'seen')
        elif not any(self.eng.field(*a) == self.weak for a in self.chain(o)):
            self.viol(st, 'a handle uses a pool it did not find through the note', 'note')

    # ---- pools and their notes
    def on_loaded(self, st, o, off, v):
        k = OBJ.keys[o]
        if k[0] == 'arg' and self.eng.field(o, off) == self.note:
            if not any(x[0] == ('#o', o) for x in st.mon['J05l']):
                st.mon['J05l'] += ((('#o', o), v),)

    def now(self, st, o, f):
        off = self.member(st, o, f)
        v = self.peek(st, o, off)
        return None if v[0] == 'u' else v

    def pools(self, st):
        n = 2 if self.eng.root == 'e_pool_assign' else 0 if self.eng.root.startswith('e_pool_ctor') else 1
        res = [self.arg(i) for i in range(n)]
        return res + [o for o in st.mem if OBJ.keys[o][0] == 'H' and self.member(st, o, self.impl) is not None
                      and self.eng.field(o, self.member(st, o, self.impl)) == self.impl]

    def consistent(self, st, when):
        seen = {}
        for o in self.pools(st):
            self.n['pool looked at'] += 1
            note, impl = self.now(st, o, self.note), self.now(st, o, self.impl)
            if note is None or impl is None:
                self.viol(st, 'a pool has no definite note %s' % when, 'none')
                continue
            if self.is_zero(st, note) is True:
                a = self.origin(impl)
                if self.is_zero(st, impl) is not True and not (
                        a and any(x[0] == ('#o', a[0]) and self.is_zero(st, x[1]) is True for x in st.mon['J05l'])):
                    self.viol(st, 'a pool with jobs has no note %s' % when, 'bare')
                continue
            if note in seen:
                self.viol(st, 'two pools share a note %s' % when, 'shared')
            seen[note] = o
            a = self.eng.addr(note)
            c = [x[1][1:] for x in st.mon.get('J05n', ()) if x[0] == ('#o',) + tuple(a)]
            own = self.origin(note)
            if not (c == [(o, 0)] if c else own and own[0] == o):
                if self.is_zero(st, impl) is not True:
                    self.viol(st, 'the note of a pool names another one %s' % when, 'wrong')

    def on_lock(self, st, loc):
        if self.eng.root not in self.ENDS or self.field(loc) not in self.roles.pool_locks:
            return
        k = OBJ.keys[loc[0]]
        a = self.origin(k[1]) if k[0] == '*' else None
        if not a or a[0] != self.arg(0) or self.eng.field(*a) != self.impl:
            return
        self.n['pool taken down'] += 1
        if 'J05r' not in st.mon and not any(x[0] == ('#o', self.arg(0)) and self.is_zero(st, x[1]) is True for x in st.mon['J05l']):
            self.viol(st, 'a pool is taken down while handles still find it', 'late')
        if self.eng.root == 'e_pool_assign':
            self.consistent(st, 'while another one is taken down')

    def on_end(self, st, kind, v):
        if kind != 'return':
            return
        if self.eng.root in self.USES:
            self.n['handle used'] += 1
            if 'J05s' in st.mon and self.is_zero(st, st.mon['J05s']) is not True and 'J05u' not in st.mon:
                self.viol(st, 'using a handle does nothing although the pool exists', 'noop')
        if self.eng.root in self.KEEPS:
            self.consistent(st, 'in the end')
        if self.eng.root == 'e_pool_schedule_default':
            n = self.now(st, self.arg(0), self.note)
            for o in [o for o in st.mem if OBJ.keys[o][0] == 'H']:
                off = self.member(st, o, self.weak)
                if off is None:
                    continue
                self.n['handle made'] += 1
                c = st.mem[o].get(off)
                if not c or not self.same(st, c[0], n):
                    self.viol(st, 'a new handle does not refer to the note of its pool', 'handle')

    @classmethod
    def finish(cls, ctx):
        ctx.need('note got', 2)
        ctx.need('note given up', 2)
        ctx.need('pool used through a handle', 4)
        ctx.need('pool looked at', 4)
        ctx.need('pool taken down', 2)
        ctx.need('handle used', 4)
        ctx.need('handle made')


RULES = [J01, J03, J04, J05]
