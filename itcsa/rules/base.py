"""Common parts of the rules."""
from collections import Counter

from ..engine import (OBJ, SYM, UNDEF, ZERO, ONE, EMPTY, NFrame, sym, mk_eq, mk_ult, neg, base_obj, split_add)
from ..program import CheckError, strip_targs, targs


class Rule:
    """typestate rule over the events of the interpreter; its state lives in st.mon"""
    id = ''
    modes = ('normal',)     # one exploration per mode
    mode = 'normal'
    only = None             # which roots, all by default

    def __init__(self, roles=None):
        self.roles = roles
        self.n = Counter()      # instances seen, by kind
        self.data = []          # picklable facts for finish()

    def start(self, st):
        pass

    def viol(self, st, msg, key=None):
        self.eng.violation(st, self.id, msg, key)

    @classmethod
    def finish(cls, ctx):
        """conclusions that need all roots; ctx has .n, .data, .violate(...), .need(...)"""

    # ------------------------------------------------------------ helpers
    def field(self, loc):
        return self.eng.field(*loc) if loc else None

    def lib_locks(self, st):
        """the library's own locks held, with their names"""
        return [(l, f) for l, f in ((l, self.eng.field(*l)) for l in st.locks) if f]

    def holds(self, st, o, off):
        """is a lock living next to the location held?"""
        g = self.eng.guards(o, off)
        return any(l in g for l in st.locks)

    def truth(self, st, p):
        return self.eng.truth(st, p)

    def is_zero(self, st, v):
        """True/False/None"""
        if v[0] == 'u':
            return None
        return self.eng.truth(st, mk_eq(v, ZERO))

    def cell(self, st, o, off):
        """what is currently known about a location: a value or None"""
        if self.eng.is_volatile(st, o, off):
            return None
        x = st.mem.get(o, EMPTY).get(off)
        return x[0] if x else None

    def peek(self, st, o, off, size=8):
        """value of a location as a load at this point would see it"""
        fr = next(f for f in reversed(st.frames) if not isinstance(f, NFrame))
        return self.eng.read(st, o, off, size, fr, fr.ins())

    def member(self, st, obj, field):
        """offset of a record's field in an object that is known to hold the record, else None"""
        for b, names in self.eng.T(obj).items():
            for n in names:
                r = self.eng.prog.record_for(n)
                off = self.offset_in(r, field) if r else None
                if off is not None:
                    return b + off
        return None

    def offset_in(self, rec, field):
        name, mem = field.split('.')
        short = strip_targs(rec['name']).split('::')[-1]
        for m in rec['members']:
            if short == name and m[0] == mem:
                return m[1]
            r = self.eng.repo_record(m[3], m[2])
            if r:
                o = self.offset_in(r, field)
                if o is not None:
                    return m[1] + o
        return None

    def tls_cells(self, st):
        """values of the repository's thread local pointers"""
        for o, c in st.mem.items():
            if OBJ.keys[o][0] == 'T' and 0 in c:
                yield o, c[0][0]


def has_user_code(prog, t, seen=None):
    """can destroying a value of this type run or drop user callables?"""
    t = t.replace('const ', '').replace(' const', '').strip()
    seen = seen if seen is not None else set()
    if not t or t in seen or t.endswith('*') or t.endswith('&'):
        return False
    seen.add(t)
    b = strip_targs(t)
    if b == 'std::function':
        return True
    if b.startswith('user::'):
        return True
    if b.startswith('std::weak_ptr') or b.startswith('std::atomic') or b.startswith('std::__cxx11'):
        return False
    if b.startswith('std::'):
        return any(has_user_code(prog, x, seen) for x in targs(t))
    for r in prog.records.get(b, ()):
        if r['name'] == t or strip_targs(r['name']) == r['name']:
            if any(has_user_code(prog, m[3], seen) for m in r['members']):
                return True
    return False


class Survey(Rule):
    """what each root touches; the roles of fields are inferred from this"""

    def on_access(self, st, o, off, size, write, atomic, val):
        f, oo, of = self.eng.owner_field(o, off)
        if f:
            self.n['acc', f, 'w' if write else 'r', bool(atomic), bool(self.eng.shared(st, oo))] += 1

    def on_notify(self, st, cv, every):
        if cv:
            self.n['notify', self.eng.field(*cv)] += 1

    def on_block(self, st, what, cv, loc, timed):
        self.n['block', what, self.eng.field(*cv) if cv else None, self.eng.field(*loc) if loc else None] += 1

    def on_lock(self, st, loc):
        self.n['lock', self.eng.field(*loc)] += 1

    def map_op(self, kind, a):
        self.n[kind, self.eng.owner_field(*a)[0]] += 1

    def on_find(self, st, a, buf, key):
        self.map_op('find', a)

    def on_map_insert(self, st, a, buf, key):
        self.map_op('insert', a)

    def on_map_erase(self, st, a, buf, key):
        self.map_op('erase', a)

    def on_iterate(self, st, a, buf, key):
        self.map_op('iterate', a)

    def on_next(self, st, a, buf, key):
        self.map_op('iterate', a)

    def on_pq(self, st, op, a, buf, s, args):
        self.map_op('pq', a)


class Invariants(Rule):
    """facts about the library's data that other rules establish and all rules may use:
    elements of a processing list before the cursor are empty (T03 checks that they are
    emptied when taken), a future that is ready stays ready (F01), job numbers are not reused (J01),
    and contexts are registered under ids that are not zero and were not given before (R01)"""

    def start(self, st):
        r = self.roles
        self.proc = set(r.get('processing', ()))
        cur = r.get('cursors', ())
        self.cur = cur[0] if len(cur) == 1 else None
        self.status = r.get('status')
        self.value = r.get('value')
        self.jobs = r.get('jobs')
        self.job_ids = r.get('job_ids', ())
        self.contexts = r.get('contexts')
        self.idgen = r.get('idgen')
        self.tables = [x for x in (self.contexts, r.get('idmap')) if x]

    # ---- the registry
    def on_erase_key(self, st, a, buf, key):
        self.on_key(st, a, buf, key)

    def never(self, st, key):
        if self.is_zero(st, key) is True:
            return True
        b, c = split_add(key)
        if b is None or b[0] != 's' or c < 1:
            return False
        k = SYM.keys[b[1]]
        return k[0] in ('R', 'I') and self.eng.field(*(k[3:5] if k[0] == 'R' else k[1:3])) == self.idgen

    # ---- job numbers are never reused
    def on_key(self, st, a, buf, key):
        if self.contexts and self.eng.owner_field(*a)[0] == self.contexts and self.never(st, key):
            h = ('t', 'has', ('p', buf, 0), key)
            if self.truth(st, h) is None:
                st.facts = dict(st.facts)
                st.facts[h] = False
        if self.jobs and self.eng.owner_field(*a)[0] == self.jobs:
            o = self.eng.owner_field(*a)[1]
            for f in self.job_ids:
                off = self.member(st, o, f)
                c = st.mem.get(o, EMPTY).get(off) if off is not None else None
                if c and split_add(c[0]) == (key, 1):
                    st.facts = dict(st.facts)
                    st.facts[('t', 'has', ('p', buf, 0), key)] = False

    # ---- spent tasks
    def exhausted(self, st, o, buf, size, idx=None):
        off = self.member(st, o, self.cur) if self.cur else None
        if off is None:
            return False
        c = st.mem.get(o, EMPTY).get(off)
        if c is None:
            return False
        c = c[0]
        m = st.mon.get('curs')
        if m and m[0] == ('#o', o):
            # the cursor was moved in this critical section: only what lay before its old position is known to be empty
            if m[1] != ('#o', buf):
                return False
            c = m[2]
        if idx is not None and self.truth(st, mk_ult(idx, c)):
            return True
        return self.truth(st, mk_ult(c, size)) is False

    def moved(self, st, o, off):
        for f in self.proc:
            base = self.member(st, o, f)
            q = st.mem.get(o, EMPTY).get(base) if base is not None else None
            a = self.eng.addr(q[0]) if q else None
            if not a or OBJ.keys[a[0]][0] != 'el':
                continue
            buf = OBJ.keys[a[0]][1]
            s = self.eng.cells(st, buf).get('S')
            old = st.mem.get(o, EMPTY).get(off)
            if s is None or old is None:
                continue
            if self.exhausted(st, o, buf, s[0]):
                self.add_spent(st, buf)
            if 'curs' not in st.mon:
                st.mon['curs'] = (('#o', o), ('#o', buf), old[0])

    def add_spent(self, st, buf):
        sp = st.mon.get('spent', ())
        e = ('#o', buf)
        if e not in sp:
            st.mon['spent'] = (sp + (e,))[-2:]

    def on_vec(self, st, o, base, old, new):
        if self.cur and old and old[0] is not None and self.eng.field(o, base) in self.proc \
                and (new is None or new[0] != old[0]):
            if self.exhausted(st, o, old[0], old[1]):
                self.add_spent(st, old[0])

    def owners(self, buf):
        """where the buffer may be stored: where it was read, and where it was last put"""
        k = OBJ.keys[buf]
        if k[0] == '*' and k[1][0] == 's':
            y = SYM.keys[k[1][1]]
            if y[0] == 'R':
                yield y[3:5]
            elif y[0] == 'I':
                yield y[1:3]
        own = self.eng.bufowner.get(buf)
        if own:
            yield own

    def hook(self, st, o, off):
        k = OBJ.keys[o]
        if k[0] == 'el':
            if off == 16 and k[2][0] != '@' and off not in st.mem.get(o, EMPTY):
                for e in st.mon.get('spent', ()):
                    if e[1] == k[1]:
                        return ZERO
                for own in self.owners(k[1]):
                    if self.eng.field(*own) not in self.proc:
                        continue
                    s = self.eng.cells(st, k[1]).get('S')
                    cur = st.mem.get(own[0], EMPTY).get(own[1])
                    if s and cur and cur[0][0] == 'p' and OBJ.keys[cur[0][1]][1:2] == (k[1],) \
                            and self.exhausted(st, own[0], k[1], s[0], k[2]):
                        return ZERO
            return None
        # ---- nothing is stored before a future is ready
        if k[0] in ('*', 'H', 'arg') and off not in st.mem.get(o, EMPTY) and isinstance(off, int) and \
                self.value and self.value in (self.eng.field(o, off), self.eng.field(o, off - 8)):
            s = self.member(st, o, self.status)
            c = st.mem.get(o, EMPTY).get(s)
            if c and c[0] == ZERO:
                return ZERO
        # ---- readiness is final
        if k[0] in ('*', 'H', 'arg') and self.eng.field(o, off) == self.status:
            for e in st.mon.get('rdy', ()):
                if e[0] == ('#o', o, off):
                    if self.is_zero(st, e[1]) is False:
                        return e[1]
        return None

    def on_loaded(self, st, o, off, v):
        k = OBJ.keys[o]
        if k[0] == 'nd' and v[0] == 's' and off == k[3] + 8:
            own = self.eng.bufowner.get(k[1])
            if own and self.eng.owner_field(*own)[0] in self.tables:
                self.eng.assume(st, mk_eq(v, ZERO), False)
        if OBJ.keys[o][0] in ('*', 'H', 'arg') and self.eng.field(o, off) == self.status and v[0] != 'u':
            self.set_ready(st, o, off, v)
            u = st.mon.get('unr')
            if not (u and u[0] == ('#o', o, off)) and self.holds(st, o, off):
                st.mon['unr'] = (('#o', o, off), v, 0)

    def on_access(self, st, o, off, size, write, atomic, val):
        if write and self.cur and self.eng.field(o, off) == self.cur:
            self.moved(st, o, off)
        if write is True and OBJ.keys[o][0] in ('*', 'H', 'arg') and val is not None \
                and self.eng.field(o, off) == self.status:
            self.set_ready(st, o, off, val)
            u = st.mon.get('unr')
            if u and u[0] == ('#o', o, off):
                st.mon['unr'] = u[:2] + (min(u[2] + 1, 2),)

    # ---- continuations are the library's own closures: what they run keeps its exceptions (F05)
    def on_usercall(self, st, cv, args):
        a = self.eng.addr(args[0]) if args else None
        k = OBJ.keys[a[0]] if a else ('',)
        own = self.eng.bufowner.get(k[1]) if k[0] == 'el' else None
        if own and self.eng.field(*own) == self.roles.get('callbacks'):
            self.eng.calm = True
        # ---- and so are the jobs in the table of a pool (J03)
        y = SYM.keys[cv[1]] if cv[0] == 's' else ('',)
        o = y[3] if y[0] == 'R' else y[1] if y[0] == 'I' else None
        if o is not None and OBJ.keys[o][0] == 'nd' and self.jobs and self.eng.owner_field(o, 0)[0] == self.jobs:
            self.eng.calm = True

    # ---- a status read under the lock of the state does not change until the lock is given up:
    # mon['unr'] = (location, value read, stores since)
    def on_unlock(self, st, loc):
        m = st.mon.get('curs')
        if m and loc in self.eng.guards(m[0][1], self.member(st, m[0][1], self.cur)):
            st.mon.pop('curs')
        u = st.mon.get('unr')
        if u and loc in self.eng.guards(*u[0][1:]):
            st.mon.pop('unr')

    def set_ready(self, st, o, off, v):
        r = tuple(e for e in st.mon.get('rdy', ()) if e[0] != ('#o', o, off))
        st.mon['rdy'] = (r + ((('#o', o, off), v),))[-3:]
