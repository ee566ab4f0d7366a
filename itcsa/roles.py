"""Which field plays which part, inferred from what the public entry points do and
from the types of the fields, never from their names."""
from .program import CheckError, strip_targs, targs


class Roles:
    def __init__(self, prog, survey):
        self.prog = prog
        self.sv = {r['root']: r['rules'][0][0] for r in survey}
        self.mem = {}
        for rs in prog.records.values():
            for r in rs:
                n = strip_targs(r['name']).split('::')[-1]
                for m in r['members']:
                    self.mem.setdefault(n + '.' + m[0], m)

    # ------------------------------------------------------------ helpers
    def type(self, field):
        m = self.mem.get(field)
        return m[3] if m else ''

    def rec(self, field):
        return field.split('.')[0]

    def fields(self, rec, test):
        return sorted(f for f, m in self.mem.items() if f.split('.')[0] == rec and test(m[3]))

    def acc(self, root, mode=None, atomic=None, rec=None):
        if root not in self.sv:
            raise CheckError('entry %s is missing' % root)
        return sorted({k[1] for k in self.sv[root] if k[0] == 'acc' and (mode is None or k[2] == mode)
                       and (atomic is None or k[3] == atomic) and (rec is None or self.rec(k[1]) == rec)})

    def ops(self, root, kind):
        return sorted({k[1:] for k in self.sv[root] if k[0] == kind}, key=str)

    def one(self, what, xs):
        xs = sorted(set(xs))
        if len(xs) != 1:
            raise CheckError('cannot tell which field is the %s: %s' % (what, xs))
        return xs[0]

    def is_task_vector(self, t):
        t = t.replace(' ', '')
        return t.startswith('std::vector<std::function<void()>') or t.startswith('std::vector<tpp::task') \
            or t.startswith('std::deque<std::function<void()>')

    @staticmethod
    def is_mutex(t):
        return t.startswith('std::') and t.endswith('mutex')

    def locks(self, rec):
        return self.fields(rec, self.is_mutex)

    # ------------------------------------------------------------ inference
    def __getattr__(self, name):
        f = type(self).__dict__.get('r_' + name)
        if f is None:
            raise AttributeError(name)
        v = f(self)
        self.__dict__[name] = v
        return v

    def get(self, name, default=None):
        """a part, or the default if the source does not tell"""
        try:
            return getattr(self, name)
        except CheckError:
            return default

    # threads
    def r_exit(self):
        def ctxlike(f):
            r = self.rec(f)
            return self.locks(r) and self.fields(r, self.is_task_vector) and \
                self.fields(r, lambda t: t == 'std::condition_variable')
        return self.one('exit flag of a thread', [f for f in self.acc('e_notified_for_exit', 'r') if ctxlike(f)])

    def r_ctx(self):
        return self.rec(self.exit)

    def r_ctx_locks(self):
        return self.locks(self.ctx)

    def r_depth(self):
        return self.one('processing depth', self.acc('e_get_depth', 'r', rec=self.ctx))

    def r_tid(self):
        return self.one('thread id', self.acc('e_get_id', 'r', rec=self.ctx))

    def r_ctx_cvs(self):
        return self.fields(self.ctx, lambda t: t == 'std::condition_variable')

    def r_queues(self):
        return self.fields(self.ctx, self.is_task_vector)

    def r_pending(self):
        w = self.acc('e_invoke_task', 'w', rec=self.ctx)
        return self.one('queue tasks are posted to', [f for f in w if f in self.queues])

    def r_processing(self):
        return [f for f in self.queues if f != self.pending]

    def r_wakes(self):
        w = set()
        for e in ('e_invoke_task', 'e_notify_for_exit', 'e_wait'):
            w |= set(self.acc(e, 'w', rec=self.ctx))
        return sorted(f for f in w if f != self.exit and 'bool' in self.type(f))

    def r_cursors(self):
        return [f for f in self.acc('e_process', 'w', rec=self.ctx)
                if f not in self.queues and f != self.depth and f not in self.wakes
                and 'bool' not in self.type(f)]

    def r_native(self):
        return self.one('native thread id', self.fields(self.ctx, lambda t: 'thread::id' in t))

    # registry
    def r_contexts(self):
        return self.one('registry of contexts', [f for (f,) in self.ops('e_invoke_task', 'find') if f])

    def r_reg(self):
        return self.rec(self.contexts)

    def r_reg_locks(self):
        return self.locks(self.reg)

    def r_idmap(self):
        return self.one('map of native thread ids',
                        [f for (f,) in self.ops('e_register_thread', 'find') + self.ops('e_register_thread', 'insert')
                         if f and f != self.contexts and self.rec(f) == self.reg])

    def r_idgen(self):
        return self.one('generator of thread ids',
                        [f for f in self.acc('e_register_thread', 'w', None, self.reg)
                         if f not in (self.contexts, self.idmap)])

    def r_cleanup(self):
        return self.one('event of an empty registry',
                        self.fields(self.reg, lambda t: t == 'std::condition_variable'))

    def r_init_count(self):
        both = [f for f in self.acc('e_shutdown', 'w', None, self.reg) if f in self.acc('e_init', 'w', None, self.reg)]
        return self.one('initialisation counter',
                        [f for f in both if 'shared_ptr' not in self.type(f) and 'map<' not in self.type(f)
                         and f not in self.acc('e_main_id', 'r', None, self.reg)])

    # handles
    def r_handle_id(self):
        return self.one('id of a thread handle', [f for f in self.acc('e_thread_swap', 'w')
                                                  if self.acc('e_thread_ctor', 'w') and 'thread' not in self.type(f)])

    # futures
    def r_status(self):
        return self.one('readiness of a future', self.acc('e_future_is_ready_val', 'r', True))

    def r_state(self):
        return self.rec(self.status)

    def r_state_locks(self):
        return self.locks(self.state)

    def r_callbacks(self):
        return self.one('continuations of a future', self.fields(self.state, self.is_task_vector))

    def r_exception(self):
        return self.one('exception of a future', self.fields(self.state, lambda t: 'exception_ptr' in t))

    def r_value(self):
        return self.one('value of a future',
                        [f for f in self.acc('e_promise_set_value_val', 'w')
                         if 'shared_ptr' in self.type(f) and f not in self.acc('e_promise_set_value_void', 'w')])

    def r_retrieved(self):
        return self.one('retrieval mark of a promise',
                        [f for f in self.acc('e_promise_get_future_val', 'w', True) if self.rec(f) == self.state])

    # waiting
    def r_waiters(self):
        return self.one('list of waiters', [f for f in self.acc('e_sem_wait', 'w') if 'vector<' in self.type(f)
                                            and self.rec(f) != self.ctx])

    def r_sem(self):
        return self.rec(self.waiters)

    def r_sem_locks(self):
        return self.locks(self.sem)

    def waiter_members(self):
        """(offset, type) of the plain members of what the list of waiters holds"""
        t = targs(self.type(self.waiters))[0]
        res = []

        def walk(t, base):
            rs = self.prog.records.get(strip_targs(t), ())
            if t.startswith('std::') or not rs:
                res.append((base, t))
                return
            for m in rs[0]['members']:
                walk(m[3], base + m[1])
        walk(t, 0)
        return res

    def r_waiter_token(self):
        return self.one('mark of a waiter', [o for o, t in self.waiter_members()
                                             if t.startswith('std::shared_ptr<std::atomic')])

    def r_waiter_id(self):
        return self.one('thread of a waiter', [o for o, t in self.waiter_members() if not t.startswith('std::shared_ptr')])

    def r_mtx_owner(self):
        return self.one('owner of a mutex', [f for f in self.acc('e_mutex_unlock', 'r', True)
                                             if self.rec(f) not in (self.ctx, self.reg, self.sem)
                                             and self.locks(self.rec(f))])

    def r_mtx(self):
        return self.rec(self.mtx_owner)

    def r_mtx_flag(self):
        return self.one('flag of a mutex', [f for f in self.acc('e_mutex_try_lock', 'w', True, self.mtx)
                                            if f != self.mtx_owner])

    def r_mtx_locks(self):
        return self.locks(self.mtx)

    # pool
    def r_jobs(self):
        return self.one('job table', [f for (f,) in self.ops('e_pool_stop', 'find')])

    def r_pool(self):
        return self.rec(self.jobs)

    def r_pool_locks(self):
        return self.locks(self.pool)

    def r_pqs(self):
        return self.one('job queues', [f for (f,) in self.ops('e_pool_change_priority', 'pq')])

    def r_job_ids(self):
        return [f for f in self.acc('e_pool_schedule_void', 'w', None, self.pool)
                if 'map<' not in self.type(f) and 'vector<' not in self.type(f) and 'mutex' not in self.type(f)]

    def r_workers(self):
        return self.one('workers of a pool', [f for f in self.fields(
            self.pool, lambda t: ('map<' in t or 'vector<' in t) and 'thread' in t) if f not in (self.jobs, self.pqs)])

    # combinators: records with a lock shared between a creator and the continuations it attaches
    def r_combs(self):
        fs = {f for r in ('e_when_all_2', 'e_when_any_2', 'e_when_all_it', 'e_when_any_it') for f in self.acc(r, 'w')}
        recs = {self.rec(f) for f in fs} - {self.ctx, self.reg, self.state, self.rec(self.status), self.sem, self.pool}
        recs = sorted(r for r in recs if self.locks(r))
        if not recs:
            raise CheckError('cannot tell the contexts of the combinators')
        return recs

    def describe(self):
        res = {}
        for n in sorted(type(self).__dict__):
            if n.startswith('r_'):
                try:
                    res[n[2:]] = getattr(self, n[2:])
                except CheckError as e:
                    res[n[2:]] = '? ' + str(e)
        return res
