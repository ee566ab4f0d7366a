"""F01-F07: promises and futures."""
from .base import *
from ..engine import split_add


def entry(eng, *names):
    """is the root the driver entry of one of these operations?"""
    r = eng.root or ''
    return any(r == 'e_' + n or r.startswith('e_' + n + '_') for n in names)


class FutureRule(Rule):
    def state_part(self, o, off):
        """which part of a shared state is stored at the location, None if it is no such part"""
        if not isinstance(off, int):
            return None
        f = self.eng.field(o, off)
        r = self.roles
        if f is None:
            return None
        if f == r.status:
            return 'status'
        if f == r.value:
            return 'value'
        if f == r.exception:
            return 'exception'
        if f == r.callbacks:
            return 'callbacks'
        return None

    def state_lock(self, st, o):
        return any(l[0] == o and self.eng.field(*l) in self.roles.state_locks for l in st.locks)

    def status(self, st, o):
        """the status of a shared state as far as it is known here, else None"""
        off = self.member(st, o, self.roles.status)
        if off is None:
            return None
        for e in st.mon.get('rdy', ()):
            if e[0] == ('#o', o, off) and self.is_zero(st, e[1]) is False:
                return e[1]
        return self.cell(st, o, off)

    def ready(self, st, o):
        s = self.status(st, o)
        return s is not None and self.is_zero(st, s) is False

    def unready(self, st, o, storing=0):
        """is it known that no result is stored? (storing: asked while readiness is being stored)"""
        off = self.member(st, o, self.roles.status)
        c = self.cell(st, o, off)
        if c is not None:
            return self.is_zero(st, c) is True
        u = st.mon.get('unr')
        return bool(u) and u[0] == ('#o', o, off) and u[2] == storing and self.is_zero(st, u[1]) is True

    def errc(self, st, v):
        """code of the future error an exception value refers to, None if it is something else"""
        a = self.eng.addr(v) if v and v[0] == 'p' else None
        if not a:
            return None
        c = st.mem.get(a[0], EMPTY).get(a[1] + 16)
        return c[0][1] if c and c[0][0] == 'i' else None

    @staticmethod
    def newval(write, val):
        return val[3] if write == 'rmw' and val else val


ALREADY_RETRIEVED, ALREADY_SATISFIED, NO_STATE, BROKEN = 1, 2, 3, 4
SETTERS = ('promise_set_value', 'promise_set_exception')


class F01(FutureRule):
    id = 'F01'
    title = ('readiness, value and exception of a shared state are written only with its lock held and no result known to be '
             'stored; a setter that stores nothing throws the already-satisfied (or no-state) error and leaves the state alone')

    def start(self, st):
        st.mon['F01'] = 0

    def on_access(self, st, o, off, size, write, atomic, val):
        if not write:
            return
        p = self.state_part(o, off)
        if p in (None, 'callbacks'):
            return
        sh = self.eng.shared(st, o)
        if p == 'status':
            new = self.newval(write, val)
            if not sh and new == ZERO:
                return
            self.n['readiness stored'] += 1
            if new is None or self.is_zero(st, new) is not False:
                self.viol(st, 'readiness is taken back', 'back')
                return
            if sh and not self.state_lock(st, o):
                self.viol(st, 'readiness is stored without holding the lock of the state', 'nolock')
            elif not self.unready(st, o, 1):
                self.viol(st, 'a result is stored although one may be stored already', 'twice')
            if entry(self.eng, *SETTERS):
                st.mon['F01'] = min(st.mon['F01'] + 1, 2)
        elif sh:
            self.n['result stored', p] += 1
            if not self.state_lock(st, o):
                self.viol(st, 'the %s of a future is written without holding the lock of the state' % p, ('nolock', p))
            elif not self.unready(st, o):
                self.viol(st, 'the %s of a future is written although a result may be stored already' % p, ('twice', p))

    def on_throw(self, st, ti, v):
        if not entry(self.eng, *SETTERS) or 'future_error' not in ti or st.mon['F01']:
            return
        c = self.errc(st, v) if v else None
        if c == NO_STATE:
            return
        self.n['refusal'] += 1
        if c != ALREADY_SATISFIED:
            self.viol(st, 'a second result is refused with another error than already-satisfied', 'code')
        elif not any(self.is_zero(st, e[1]) is False for e in st.mon.get('rdy', ())):
            self.viol(st, 'a result is refused although none may be stored', 'refused')

    def on_end(self, st, kind, v):
        if entry(self.eng, *SETTERS) and kind == 'return':
            self.n['setter returned'] += 1
            if st.mon['F01'] != 1:
                self.viol(st, 'a setter returns although it stored no result' if not st.mon['F01'] else
                          'a setter stores the result twice', 'return')

    @classmethod
    def finish(cls, ctx):
        ctx.need('readiness stored', 20)
        ctx.need('refusal', 5)
        ctx.need('setter returned', 5)
        ctx.need('result stored', 10)


class F02(FutureRule):
    id = 'F02'
    title = ('readiness is stored after the value or exception it announces, in the same critical section, nothing is stored '
             'afterwards, then all waiters are notified on every path; reading returns the stored value of a ready future, or '
             'throws the stored exception, or an error')

    # mon['F02w']: states with a result written and not announced; mon['F02n']: states announced, waiters not yet notified
    def start(self, st):
        st.mon['F02w'] = ()
        st.mon['F02n'] = ()

    def on_access(self, st, o, off, size, write, atomic, val):
        if not write:
            return
        p = self.state_part(o, off)
        if p in ('value', 'exception'):
            new = self.newval(write, val)
            if new == ZERO:
                return
            if self.ready(st, o):
                self.viol(st, 'the %s of a future is written after it was announced' % p, ('late', p))
                return
            e = (('#o', o), p)
            if e not in st.mon['F02w']:
                st.mon['F02w'] += (e,)
        elif p == 'status':
            new = self.newval(write, val)
            if new == ZERO and not self.eng.shared(st, o):
                return
            w = sorted(x[1] for x in st.mon['F02w'] if x[0] == ('#o', o))
            st.mon['F02w'] = tuple(x for x in st.mon['F02w'] if x[0] != ('#o', o))
            has_value = self.member(st, o, self.roles.value) is not None
            self.n['announced', '+'.join(w) or 'nothing'] += 1
            if new is not None and new[0] == 'i':
                self.data.append((new[1], w[0] if w else ('value' if not has_value else 'nothing'),
                                  self.eng.where(st), self.eng.root))
            else:
                self.viol(st, 'what is announced is not known', 'what')
            if not w and has_value:
                self.viol(st, 'readiness is stored before the result', 'early')
            if len(w) > 1:
                self.viol(st, 'both a value and an exception are stored', 'both')
            if w == ['value']:
                c = self.cell(st, o, self.member(st, o, self.roles.value))
                if c is not None and self.is_zero(st, c) is not False:
                    self.viol(st, 'a null value is announced', 'null')
            if self.eng.shared(st, o) and ('#o', o) not in st.mon['F02n']:
                st.mon['F02n'] += (('#o', o),)

    def on_unlock(self, st, loc):
        if self.field(loc) in self.roles.state_locks:
            if any(x[0] == ('#o', loc[0]) for x in st.mon['F02w']):
                self.viol(st, 'a result is stored but not announced in the same critical section', 'section')
                st.mon['F02w'] = tuple(x for x in st.mon['F02w'] if x[0] != ('#o', loc[0]))

    def on_vec(self, st, o, base, old, new):
        if st.mon['F02n'] and self.eng.field(o, base) == self.roles.waiters and ('#o', o) in st.mon['F02n']:
            if new is None or new[0] is None or self.is_zero(st, new[1]) is True:
                self.n['waiters notified'] += 1
                st.mon['F02n'] = tuple(x for x in st.mon['F02n'] if x != ('#o', o))

    # ---- reading
    def reading(self):
        return entry(self.eng, 'future_get', 'sfuture_get')

    def on_loaded(self, st, o, off, v):
        if self.reading() and self.state_part(o, off) in ('value', 'exception') and v[0] != 'u':
            p = self.state_part(o, off)
            if p == 'exception':
                st.mon['F02x'] = (('#o', o), v)
            elif self.eng.field(o, off - 8) != self.roles.value:
                st.mon['F02v'] = (('#o', o), v)
        if self.reading() and self.state_part(o, off) == 'status':
            st.mon['F02s'] = (('#o', o),)

    def on_userfn(self, st, kind, fn, args):
        if self.reading() and kind == 'construct' and len(args) > 1:
            st.mon['F02c'] = (args[1],)

    def on_throw(self, st, ti, v):
        if not self.reading():
            return
        if ti == 'rethrow_exception':
            x = st.mon.get('F02x')
            self.n['stored exception thrown'] += 1
            if x is None or v != x[1]:
                self.viol(st, 'reading throws something else than the stored exception', 'other')
        elif 'future_error' in ti:
            c = self.errc(st, v) if v else None
            self.n['error thrown', c] += 1
            if c not in (NO_STATE, BROKEN):
                self.viol(st, 'reading fails with an unexpected error', 'code')
            if c == BROKEN:
                # neither a value nor an exception is there
                for k in ('F02x', 'F02v'):
                    x = st.mon.get(k)
                    if x and self.is_zero(st, x[1]) is False:
                        self.viol(st, 'reading a future with a result fails', 'lost')

    def on_end(self, st, kind, v):
        if st.mon['F02n'] and kind != 'terminate':
            self.viol(st, 'a future becomes ready without waking those who wait for it', 'wake')
        if not self.reading() or kind != 'return':
            return
        self.n['result read'] += 1
        x = st.mon.get('F02v')
        if self.eng.root.endswith('_val'):
            if x is None or self.is_zero(st, x[1]) is not False:
                self.viol(st, 'reading returns although no value is stored', 'novalue')
            elif self.eng.root == 'e_future_get_val':
                c = st.mon.get('F02c')
                if c is None or c[0] != x[1] and self.eng.addr(c[0]) != self.eng.addr(x[1]):
                    self.viol(st, 'reading returns something else than the stored value', 'value')
        else:
            s = st.mon.get('F02s')
            e = st.mon.get('F02x')
            if s is None or not self.ready(st, s[0][1]):
                self.viol(st, 'reading returns although the future is not known to be ready', 'unready')
            if e is None or self.is_zero(st, e[1]) is not True:
                self.viol(st, 'reading returns although an exception may be stored', 'exception')

    @classmethod
    def finish(cls, ctx):
        ctx.need('announced', 20)
        ctx.need('waiters notified', 20)
        ctx.need('result read', 4)
        ctx.need('stored exception thrown', 2)
        codes = {}
        for c, k, w, r in ctx.data:
            codes.setdefault(k, {}).setdefault(c, (w, r))
        for k in ('value', 'exception'):
            if len(codes.get(k, {})) > 1:
                w, r = sorted(codes[k].items())[-1][1]
                ctx.violate('different states of readiness are announced with a stored %s' % k, w, r)
        for c in set(codes.get('value', ())) & set(codes.get('exception', ())):
            w, r = codes['exception'][c]
            ctx.violate('a stored exception is announced as a value or a value as an exception', w, r)


def bump(eng, v):
    return eng.arith('add', v, ONE, 8)


class Walk(FutureRule):
    """keeps track of a traversal of a sequence: which index comes next, under all its names"""

    def walk_next(self, st, key):
        w = st.mon.get(key)
        return w[2] if w else None

    def on_prewiden(self, st, v):
        i = None
        if v[0] == 'p':
            k = OBJ.keys[v[1]]
            if k[0] == 'el':
                i, b = k[2], k[1]
        else:
            i, b = v, None
        res = []
        if i is not None and i[0] != '@':
            x, c = split_add(i)
            if i[0] == 'i':
                x, c = None, i[1]
            for key in self.WALKS:
                w = st.mon.get(key)
                if not w or b is not None and w[0] != ('#o', b):
                    continue
                if w[1] != UNDEF and any(n == w[1] or self.truth(st, mk_ult(n, w[1])) is False for n in w[2]):
                    # all of it was visited: later loops over the sequence are of no interest
                    st.mon[key] = w[:2] + ((w[1],),) + w[3:]
                    continue
                for n in w[2]:
                    y, d = split_add(n)
                    if n[0] == 'i':
                        y, d = None, n[1]
                    if x == y:
                        res.append((key, d - c))
                        break
        self.pending = res

    def on_postwiden(self, st, v):
        i = OBJ.keys[v[1]][2] if v[0] == 'p' else v
        for key, d in self.pending:
            w = st.mon.get(key)
            n = self.eng.arith('add', i, ('i', d % (1 << 64)), 8)
            if w and n not in w[2]:
                # names made of something else than the new symbol are dropped by and by
                keep = tuple(x for x in w[2] if split_add(x)[0][0] == 's'
                             and SYM.keys[split_add(x)[0][1]][0] == 'W')
                st.mon[key] = w[:2] + (tuple(sorted(set(keep + (n,)))),) + w[3:]
        self.pending = []


class F03(Walk):
    id = 'F03'
    title = ('a continuation is stored only under the lock of a state known to have no result, or called at once when the result '
             'is known to be there; completing takes the whole list in the critical section that stores readiness and calls '
             'every element once, in a loop that covers the list')
    WALKS = ('F03b',)
    THEN = ('future_then', 'sfuture_then')

    # mon['F03b']: (buffer, size, names of the next index, (index reached, its manager) or None)
    def start(self, st):
        st.mon['F03'] = 0
        self.pending = []

    def on_vec(self, st, o, base, old, new):
        if self.eng.field(o, base) != self.roles.callbacks or not self.eng.shared(st, o):
            return
        if not self.state_lock(st, o):
            self.viol(st, 'the list of continuations is changed without the lock of the state', 'lock')
            return
        same = old and new and old[0] is not None and old[0] == new[0]
        if same and split_add(new[1])[0] == split_add(old[1])[0] and split_add(new[1])[1] == split_add(old[1])[1] + 1 or \
                same and old[1][0] == 'i' and new[1] == ('i', old[1][1] + 1):
            self.n['continuation stored'] += 1
            if not self.unready(st, o):
                self.viol(st, 'a continuation is stored although the result may be there already', 'late')
            if entry(self.eng, *self.THEN):
                st.mon['F03'] = min(st.mon['F03'] + 1, 2)
            return
        if old is None:
            fr = next(x for x in reversed(st.frames) if not isinstance(x, NFrame))
            old = self.eng.sequence(st, o, base, fr, fr.ins())
        if old[0] is None or self.is_zero(st, old[1]) is True:
            return
        if new is not None and new[0] == old[0]:
            self.viol(st, 'continuations are discarded', 'discard')
            return
        if not self.ready(st, o):
            st.mon['F03y'] = ('#o', o)      # to be announced before the lock is released
        self.n['continuations taken'] += 1
        st.mon['F03b'] = (('#o', old[0]), old[1], (ZERO,), ())

    def on_access(self, st, o, off, size, write, atomic, val):
        if write and self.state_part(o, off) == 'status' and self.eng.shared(st, o):
            st.mon['F03t'] = ('#o', o)

    def on_unlock(self, st, loc):
        y = st.mon.get('F03y')
        if y and y[1] == loc[0] and self.field(loc) in self.roles.state_locks:
            st.mon.pop('F03y')
            if not self.ready(st, loc[0]):
                self.viol(st, 'the continuations are taken before the result is announced', 'early')
        t = st.mon.get('F03t')
        if t and t[1] == loc[0] and self.field(loc) in self.roles.state_locks:
            st.mon.pop('F03t')
            off = self.member(st, loc[0], self.roles.callbacks)
            fr = next(x for x in reversed(st.frames) if not isinstance(x, NFrame))
            q = self.eng.sequence(st, loc[0], off, fr, fr.ins())
            if q is None or q[0] is not None and self.is_zero(st, q[1]) is not True:
                self.viol(st, 'the continuations stay in the list when the result is announced', 'stay')

    # ---- calling them
    def element(self, o):
        k = OBJ.keys[o]
        return (k[1], k[2]) if k[0] == 'el' and k[2][0] != '@' else None

    def reach(self, st, w, e, m):
        """the traversal arrives at the next element"""
        if w[3] and w[3][2] is False:
            self.left_out(st, w)
        st.mon['F03b'] = w[:2] + (tuple(bump(self.eng, n) for n in w[2]), (e[1], m, False))

    def left_out(self, st, w):
        if self.is_zero(st, w[3][1]) is not True:
            self.viol(st, 'a continuation is left out', 'skip')

    def on_loaded(self, st, o, off, v):
        w = st.mon.get('F03b')
        if not w or off != 16:
            return
        e = self.element(o)
        if not e or ('#o', e[0]) != w[0]:
            return
        if w[3] and w[3][0] == e[1]:
            return
        if any(n == e[1] or self.truth(st, mk_eq(n, e[1])) is True for n in w[2]):
            self.reach(st, w, e, v)

    def on_usercall(self, st, cv, args):
        w = st.mon.get('F03b')
        a = self.eng.addr(args[0]) if args else None
        e = self.element(a[0]) if a else None
        if not w or not e or ('#o', e[0]) != w[0]:
            return
        if not w[3] or w[3][0] != e[1]:
            self.viol(st, 'a continuation is called out of turn', 'order')
            return
        if w[3][2]:
            self.viol(st, 'a continuation is called twice', 'again')
            return
        self.n['continuation called'] += 1
        st.mon['F03b'] = w[:3] + (w[3][:2] + (True,),)
        if self.lib_locks(st):
            pass

    def on_enter(self, st, fn, args):
        # a continuation attached to a ready future runs at once
        if fn.base == '_M_invoke' and fn.cls == 'std::_Function_handler' and entry(self.eng, *self.THEN):
            if any(f.fn is not None and f.fn.base == '_M_invoke' and f.fn.cls == 'std::_Function_handler'
                   for f in st.frames[:-1]):
                return
            self.n['continuation run at once'] += 1
            st.mon['F03'] = min(st.mon['F03'] + 1, 2)
            if not any(self.is_zero(st, e[1]) is False for e in st.mon.get('rdy', ())):
                self.viol(st, 'a continuation runs although the result may not be there', 'unready')

    def on_end(self, st, kind, v):
        if kind != 'return':
            return
        w = st.mon.get('F03b')
        if w:
            if w[3] and w[3][2] is False:
                self.left_out(st, w)
            if not any(n == w[1] or self.truth(st, mk_eq(n, w[1])) is True or self.truth(st, mk_ult(n, w[1])) is False
                       for n in w[2]):
                self.viol(st, 'not all continuations are called when the result is stored', 'rest')
            self.n['list of continuations done'] += 1
        if entry(self.eng, *self.THEN):
            self.n['attached'] += 1
            if st.mon['F03'] != 1:
                self.viol(st, 'attaching a continuation neither stores nor runs it' if not st.mon['F03']
                          else 'a continuation is stored or run more than once', 'count')

    @classmethod
    def finish(cls, ctx):
        ctx.need('continuation stored', 4)
        ctx.need('continuations taken', 10)
        ctx.need('continuation called', 10)
        ctx.need('continuation run at once', 4)
        ctx.need('list of continuations done', 10)
        ctx.need('attached', 8)


class F04(FutureRule):
    id = 'F04'
    title = ('on every path through the destruction of a promise, or the assignment over one, its state is null, known to be '
             'ready, or gets the broken-promise error')
    only = staticmethod(lambda f: f.name.startswith(('e_promise_dtor', 'e_promise_assign', 'e_promise_move')))

    def given_up(self):
        return OBJ(('arg', 0, False, ''))

    def giver(self):
        return OBJ(('arg', 1, False, ''))

    def on_loaded(self, st, o, off, v):
        if o == self.given_up() and off == 0 and 'F04' not in st.mon:
            st.mon['F04'] = v
        if o == self.giver() and off == 0 and 'F04q' not in st.mon:
            st.mon['F04q'] = v

    def on_access(self, st, o, off, size, write, atomic, val):
        if not write:
            return
        p = self.state_part(o, off)
        if p == 'exception' and self.eng.shared(st, o):
            new = self.newval(write, val)
            if new == ZERO:
                return
            self.n['exception stored'] += 1
            if self.errc(st, new) != BROKEN:
                self.viol(st, 'a promise given up stores another error than broken-promise', 'code')
            st.mon['F04x'] = ('#o', o)
        elif p == 'value' and self.eng.shared(st, o) and self.newval(write, val) != ZERO:
            self.viol(st, 'a promise given up stores a value', 'value')
        elif p == 'status':
            if st.mon.get('F04x') == ('#o', o):
                self.n['broken promise announced'] += 1
            elif self.eng.shared(st, o):
                self.viol(st, 'a promise given up becomes ready without an error', 'empty')

    def on_end(self, st, kind, v):
        if kind == 'unwind':
            self.viol(st, 'giving up a promise throws', 'throw')
        if kind != 'return':
            return
        s = st.mon.get('F04')
        if s is None:
            self.viol(st, 'the state of a promise given up is not looked at', 'ignored')
            return
        z = self.is_zero(st, s)
        if z is True:
            self.n['given up without state'] += 1
            return
        a = self.eng.addr(s)
        if not a or not self.ready(st, a[0]):
            self.viol(st, 'a promise is given up without delivering a result', 'silent')
        else:
            self.n['given up with a result'] += 1
        if self.eng.root.startswith('e_promise_assign'):
            c = st.mem.get(self.given_up(), EMPTY).get(0)
            q = st.mon.get('F04q')
            if not c or q is None or c[0] != q and self.truth(st, mk_eq(c[0], q)) is not True:
                self.viol(st, 'assigning a promise does not take over the state', 'taken')
            c = st.mem.get(self.giver(), EMPTY).get(0)
            if not c or self.is_zero(st, c[0]) is not True:
                self.viol(st, 'a promise assigned from keeps its state', 'kept')

    @classmethod
    def finish(cls, ctx):
        ctx.need('exception stored', 4)
        ctx.need('broken promise announced', 4)
        ctx.need('given up with a result', 6)
        ctx.need('given up without state', 2)


class F05(FutureRule):
    id = 'F05'
    title = ('a stored callable that owns a promise returns on every path, having stored readiness of that promise exactly once: '
             'the caught exception if the callable threw, a value otherwise; no launching call lets the exception out')
    LAUNCH = ('async', 'future_then', 'sfuture_then', 'pool_schedule')

    def start(self, st):
        st.mon['F05'] = 0

    def on_user(self, st, kind, what):
        # the configured log functions are not meant
        if what.startswith('user::'):
            st.mon['F05u'] = kind

    def on_throw(self, st, ti, v):
        if 'future_error' in ti and v and self.errc(st, v) == NO_STATE:
            st.mon['F05n'] = True

    def on_current_exception(self, st, e):
        st.mon['F05e'] = e

    def mine(self, o):
        """is it the state of a promise the closure itself holds?"""
        for _ in (0, 1):
            k = OBJ.keys[o]
            if k[0] != '*' or k[1][0] != 's' or SYM.keys[k[1][1]][0] != 'I':
                return False
            o = SYM.keys[k[1][1]][1]
            if _ and OBJ.keys[o] == ('arg', 0, False, 'closure'):
                return True
        return False

    def on_access(self, st, o, off, size, write, atomic, val):
        if not write or self.state_part(o, off) not in ('status', 'exception', 'value'):
            return
        p = self.state_part(o, off)
        if self.eng.root.startswith('e_') or not self.mine(o):
            return
        new = self.newval(write, val)
        if p == 'status':
            st.mon['F05'] = min(st.mon['F05'] + 1, 2)
            # continuations run from here on
            if st.mon['F05'] == 1:
                st.mon['F05c'] = (bool(st.caught), st.mon.get('F05r', ''))
        elif new != ZERO:
            st.mon['F05r'] = p
            if p == 'exception' and st.caught and new not in (st.caught[-1][0], st.mon.get('F05e')):
                self.viol(st, 'another exception than the one thrown is stored', 'other')

    def on_end(self, st, kind, v):
        if self.eng.root.startswith('e_'):
            if kind == 'unwind' and entry(self.eng, *self.LAUNCH) and st.mon.get('F05u') == 'call':
                self.viol(st, 'an exception of the callable leaves the launching call', 'launch')
            return
        if kind == 'terminate':
            return
        steps = []
        t = st.trace
        while t and len(steps) < 40:
            steps.append('%s @ %s' % t[0])
            t = t[1]
        # the closure is the only owner of its promise, which has a state and no result when the closure is called (T03)
        if not st.mon['F05'] and (st.mon.get('F05n') or any(self.mine(x[0][1]) and self.is_zero(st, x[1]) is False
                                                            for x in st.mon.get('rdy', ()))):
            return
        e = (self.eng.root, kind, st.mon['F05'], st.mon.get('F05c'))
        if e not in [x[:4] for x in self.data]:
            self.data.append(e + (steps[::-1], self.eng.where(st)))

    @classmethod
    def finish(cls, ctx):
        by = {}
        for e in ctx.data:
            by.setdefault(e[0], []).append(e)
        done = 0
        for r, es in sorted(by.items()):
            if not any(e[2] for e in es):
                continue
            done += 1
            for root, kind, n, c, steps, where in es:
                if kind == 'unwind' and not n:
                    ctx.violate('an exception leaves the task instead of being stored in its future', where, root, steps)
                elif n == 0:
                    ctx.violate('a task ends without completing its future', where, root, steps)
                elif n > 1:
                    ctx.violate('a task completes its future twice', where, root, steps)
                elif kind == 'unwind':
                    ctx.violate('an exception leaves the task', where, root, steps)
                elif c[0] and c[1] != 'exception':
                    ctx.violate('a task whose callable threw completes without storing the exception', where, root, steps)
                elif not c[0] and c[1] == 'exception':
                    ctx.violate('a task whose callable returned completes with an exception', where, root, steps)
        ctx.n['task owning a promise'] = done
        ctx.need('task owning a promise', 10)


class F06(FutureRule):
    id = 'F06'
    title = ('a wait reports "ready" only with the status last read known to be set, "timeout" only with the status read as unset '
             'after blocking and the deadline known to have passed, otherwise only with the exit request seen')
    only = staticmethod(lambda f: f.name.startswith(('e_future_wait', 'e_sfuture_wait')))

    def start(self, st):
        st.mon['F06x'] = False

    def on_now(self, st, v):
        st.mon['F06n'] = v

    def on_fact(self, st, p, t):
        v = st.mon.get('F06n')
        if v is not None and p[1] == 'slt' and (p[2] == v and t is False or p[3] == v and t is True):
            st.mon['F06x'] = True

    def on_block(self, st, what, cv, loc, timed):
        st.mon.pop('F06s', None)

    def on_user(self, st, kind, what):
        st.mon.pop('F06s', None)

    def on_loaded(self, st, o, off, v):
        if self.state_part(o, off) == 'status':
            st.mon['F06s'] = v
        elif self.eng.field(o, off) == self.roles.exit:
            st.mon['F06e'] = v

    def leaving(self, st):
        e = st.mon.get('F06e')
        if e is not None and self.is_zero(st, e) is False:
            return True
        return any(self.is_zero(st, v) is True for t, v in self.tls_cells(st))

    def is_ready(self, st):
        return any(self.is_zero(st, e[1]) is False for e in st.mon.get('rdy', ()))

    def on_end(self, st, kind, v):
        if kind != 'return':
            return
        if 'wait_for' not in self.eng.root and 'wait_until' not in self.eng.root:
            self.n['wait ended'] += 1
            if not self.is_ready(st) and not self.leaving(st):
                self.viol(st, 'an untimed wait returns without result or exit request', 'untimed')
            return
        if v[0] != 'i':
            self.viol(st, 'a timed wait reports something unrelated to its outcome', 'value')
            return
        if v[1] == 0:
            self.n['reported', 'ready'] += 1
            if not self.is_ready(st):
                self.viol(st, '"ready" is reported although no result is known to be there', 'ready')
        elif v[1] == 1:
            self.n['reported', 'timeout'] += 1
            s = st.mon.get('F06s')
            if self.is_ready(st) or s is None or self.is_zero(st, s) is not True:
                self.viol(st, '"timeout" is reported although a result may be there', 'timeout')
            elif not st.mon['F06x']:
                self.viol(st, '"timeout" is reported although the time has not run out', 'early')
        else:
            self.n['reported', 'neither'] += 1
            if not self.leaving(st):
                self.viol(st, 'a timed wait reports neither without an exit request', 'neither')

    @classmethod
    def finish(cls, ctx):
        ctx.need('wait ended', 4)
        for k in ('ready', 'timeout', 'neither'):
            if not ctx.n['reported', k]:
                ctx.need('reported ' + k)


class F07(FutureRule):
    id = 'F07'
    title = ('an operation that needs a shared state throws the no-state error exactly when the state is null; the future of a '
             'promise is handed out only by the first test-and-set of its mark; one-shot operations leave the object without state')
    NEED = ('future_is_ready', 'future_has_error', 'future_wait', 'future_wait_for', 'future_wait_until', 'future_get',
            'future_then', 'sfuture_is_ready', 'sfuture_wait', 'sfuture_wait_for', 'sfuture_get', 'sfuture_then',
            'promise_set_value', 'promise_set_exception', 'promise_get_future')
    ONCE = ('future_get', 'future_then', 'future_share')
    only = staticmethod(lambda f: f.name.startswith(('e_future_', 'e_sfuture_', 'e_promise_')))

    def obj(self):
        return OBJ(('arg', 0, False, ''))

    def on_loaded(self, st, o, off, v):
        if o == self.obj() and off == 0 and 'F07' not in st.mon:
            st.mon['F07'] = v

    def on_access(self, st, o, off, size, write, atomic, val):
        if write and self.eng.field(o, off) == self.roles.retrieved and entry(self.eng, 'promise_get_future'):
            if write == 'rmw' and val and val[3] != ZERO:
                st.mon['F07r'] = val[2]
                self.n['mark tested and set'] += 1
            elif write is True and val is not None and val != ZERO:
                st.mon['F07p'] = True
        if self.eng.field(o, off) == self.roles.retrieved and write and self.eng.shared(st, o) and \
                self.newval(write, val) == ZERO:
            self.viol(st, 'the retrieval mark is cleared', 'clear')

    def on_throw(self, st, ti, v):
        if 'future_error' not in ti or not entry(self.eng, *self.NEED):
            return
        c = self.errc(st, v) if v else None
        st.mon['F07c'] = c if c is not None else -1
        s = st.mon.get('F07')
        if c == NO_STATE:
            self.n['no state reported'] += 1
            if s is None or self.is_zero(st, s) is not True:
                self.viol(st, 'the no-state error is thrown although there may be a state', 'state')
        elif c == ALREADY_RETRIEVED:
            self.n['second retrieval reported'] += 1
            r = st.mon.get('F07r')
            if r is None or self.is_zero(st, r) is not False:
                self.viol(st, 'the already-retrieved error is thrown for a first retrieval', 'first')

    def on_end(self, st, kind, v):
        s = st.mon.get('F07')
        if entry(self.eng, *self.NEED):
            if s is None or self.is_zero(st, s) is not False:
                if s is None or self.is_zero(st, s) is None or kind != 'unwind' or st.mon.get('F07c') != NO_STATE:
                    self.viol(st, 'an operation without shared state does not throw the no-state error', 'nostate')
                else:
                    self.n['refused'] += 1
                return
        if entry(self.eng, 'promise_get_future') and kind == 'return':
            r = st.mon.get('F07r')
            if r is None or self.is_zero(st, r) is not True:
                self.viol(st, 'the future of a promise may be handed out twice', 'twice')
            else:
                self.n['first retrieval'] += 1
        c = st.mem.get(self.obj(), EMPTY).get(0)
        if entry(self.eng, *self.ONCE) and kind == 'return':
            self.n['one-shot'] += 1
            if not c or self.is_zero(st, c[0]) is not True:
                self.viol(st, 'a unique future keeps its state after a one-shot operation', 'kept')
        elif self.eng.root.startswith(('e_sfuture', 'e_future_wait', 'e_future_is', 'e_future_has', 'e_future_valid')) \
                and kind in ('return', 'unwind'):
            self.n['repeatable'] += 1
            if c and s is not None and c[0] != s:
                self.viol(st, 'an operation that can be repeated takes the state away', 'lost')
        if self.eng.root.startswith('e_future_valid') and kind == 'return':
            t = self.truth(st, neg(mk_eq(v, ZERO))) if v[0] != 'u' else None
            e = s is not None and self.is_zero(st, s)
            if v[0] != 'n' and (t is None or e is None or t is not (not e)):
                self.viol(st, 'validity is misreported', 'valid')

    @classmethod
    def finish(cls, ctx):
        ctx.need('no state reported', 20)
        ctx.need('refused', 20)
        ctx.need('mark tested and set', 2)
        ctx.need('second retrieval reported', 2)
        ctx.need('first retrieval', 2)
        ctx.need('one-shot', 10)
        ctx.need('repeatable', 20)


RULES = [F01, F02, F03, F04, F05, F06, F07]
