"""W01, W02: combinations of futures."""
from .base import *
from .futures import bump
from .registry import RegistryRule

FUTURES = ('tpp::future<', 'tpp::shared_future<')
INTS = ('unsigned long', 'unsigned int', 'int', 'long', 'unsigned long long', 'long long')


class Layout:
    def __init__(self):
        self.lock = self.promise = self.index = None
        self.ints, self.bools, self.vecs = [], [], []
        self.slots = {}       # offset -> position
        self.states = []      # (offset, size)


class CombRule(RegistryRule):
    only = staticmethod(lambda f: not f.name.startswith('e_') or f.name.startswith('e_when'))
    any = False
    WALKS = ('Ww',)

    # mon: Wo the context; Ws (object, offset, value) slot stored by the continuation; Wc (offset, value) of the counter stored;
    #      Wh the future stored is part of the value; Wq counter reached the total; Wd completions tried; Wp (value, object, offset) inputs placed by the creator;
    #      Wt inputs attached; Wx attached and not counted yet; Wn ((offset, value),) numbers stored by the creator
    def start(self, st):
        self.pending = []
        self.lays = {}
        self.creator = self.eng.root.startswith('e_when')
        self.kind = 'any' if self.any else 'all'
        self.mine = self.creator and self.kind in self.eng.root

    def lay(self, o):
        if OBJ.keys[o][0] not in ('H', '*', 'arg'):
            return None
        k = self.eng.tkey(o)
        r = self.lays.get(k)
        if r is None:
            for b, names in self.eng.T(o).items():
                for n in names:
                    rec = self.eng.prog.record_for(n)
                    if rec and (any(m[3].startswith('tpp::promise<') for m in rec['members'])
                                and self.eng.mutexes_of(rec, b)):
                        r = Layout()
                        self.scan(r, rec, b, True)
            if r is None:
                return None
            self.lays[k] = r
        return r if (r.index is not None) == self.any else None

    def scan(self, r, rec, b, outer):
        for m in rec['members']:
            off, t = b + m[1], m[3]
            if Roles_is_mutex(t):
                r.lock = off
            elif t.startswith('tpp::promise<'):
                r.promise = off
            elif t in INTS or t.startswith('std::atomic<') and targs(t)[0] in INTS:
                if outer:
                    r.ints.append(off)
                else:
                    r.index = off
            elif t in ('bool', 'std::atomic<bool>', 'std::atomic_bool'):
                r.bools.append(off)
            elif t.startswith('std::tuple<'):
                es = targs(t)
                for i, e in enumerate(es):
                    a = off + 16 * (len(es) - 1 - i)
                    if e.startswith(FUTURES):
                        r.slots[a] = i
                    else:
                        r.states.append((a, 16))
            elif t.startswith('std::vector<'):
                if targs(t)[0].startswith(FUTURES):
                    r.vecs.append(off)
                else:
                    r.states.append((off, 24))
            else:
                q = self.eng.repo_record(t, m[2])
                if q:
                    self.scan(r, q, off, False)

    # ------------------------------------------------------------ helpers
    def in_task(self, st):
        return any(not isinstance(f, NFrame) and f.fn.cls.startswith('std::_Function') for f in st.frames)

    def dying(self, st):
        return any(not isinstance(f, NFrame) and f.fn.base.startswith('~') for f in st.frames)

    def comb(self, st):
        w = st.mon.get('Wo')
        return w[1] if w else None

    def owner(self, st, buf):
        """(context, offset of the sequence) the buffer belongs to"""
        own = self.eng.bufowner.get(buf)
        if own:
            return own
        for o, c in st.mem.items():
            d = self.lay(o)
            for off in d.vecs if d else ():
                x = c.get(off)
                if x and x[0][0] == 'p' and OBJ.keys[x[0][1]][:2] == ('el', buf):
                    return o, off
        return None

    def cell_of(self, st, o, off):
        """(context, position or index, object) if the location is the state of a slot"""
        k = OBJ.keys[o]
        if k[0] == 'el':
            own = self.owner(st, k[1])
            d = self.lay(own[0]) if own else None
            if d and own[1] in d.vecs and off == 0:
                return own[0], k[2]
            return None
        d = self.lay(o)
        if d and off in d.slots:
            return o, ('i', d.slots[off])
        return None

    def locked(self, st, c):
        return any(l == (c, self.lay(c).lock) for l in st.locks)

    def own_value(self, st, c, v):
        """a value that comes from outside the context"""
        a = self.origin(v)
        return bool(a) and a[0] != c and (self.eng.bufowner.get(base_of(a[0])) or (None,))[0] != c

    def reached(self, st, c, w):
        """is the counter known to have reached the total? True, False or None"""
        at, new = w
        for off in self.lay(c).ints:
            x = st.mem.get(c, EMPTY).get(off)
            if not x or off == at:
                continue
            e = self.truth(st, mk_eq(new, x[0]))
            if e is True or self.truth(st, mk_ult(new, x[0])) is False:
                return True
            if e is False or self.truth(st, mk_ult(new, x[0])) is True:
                return False
        return None

    def promised(self, st, o):
        """is it the state of the promise of the context?"""
        c = self.comb(st)
        if c is None:
            return False
        p = self.lay(c).promise
        x = st.mem.get(c, EMPTY).get(p)
        if x and (self.eng.addr(x[0]) or (None,))[0] == o:
            return True
        k = OBJ.keys[o]
        return k[0] == '*' and self.origin(k[1]) == (c, p)

    # ------------------------------------------------------------ events
    def on_lock(self, st, loc):
        d = self.lay(loc[0])
        if d and loc[1] == d.lock:
            st.mon['Wo'] = ('#o', loc[0])
            if not self.creator:
                self.n['critical section of a continuation'] += 1
            self.section(st, loc[0])
        elif self.field(loc) in self.roles.state_locks and self.promised(st, loc[0]) and (not self.creator or 'Wt' in st.mon) \
                and not self.dying(st):
            self.attempt(st)

    def on_loaded(self, st, o, off, v):
        # what a continuation was made of is there: only valid futures can be continued, and its promise is its own
        if not self.creator and v[0] == 's' and SYM.keys[v[1]][0] == 'I' and OBJ.keys[o][0] == '*':
            a = self.origin(OBJ.keys[o][1])
            if a and OBJ.keys[a[0]][0] == 'arg' and OBJ.keys[a[0]][3] == 'closure' and \
                    self.eng.typed_at(o, off, 'std::shared_ptr'):
                self.eng.assume(st, mk_eq(v, ZERO), False)
        self.looked(st, o, off, v)

    def looked(self, st, o, off, v):
        pass

    def section(self, st, c):
        pass

    def attempt(self, st):
        if self.creator and self.in_task(st):
            return
        st.mon['Wd'] = min(st.mon.get('Wd', 0) + 1, 2)
        self.n['completion', 'creator' if self.creator else 'continuation'] += 1
        if st.mon['Wd'] > 1:
            self.viol(st, 'the combined future is completed twice', 'twice')

    def on_access(self, st, o, off, size, write, atomic, val):
        if not write:
            return
        s = self.cell_of(st, o, off) if size == 8 else None
        if s and val is not None and self.is_zero(st, val) is not True:
            self.slot(st, o, off, s, val)
            return
        d = self.lay(o)
        if not d and val is not None and write is True and 'Ws' in st.mon and OBJ.keys[o][0] == 'H':
            self.handed(st, o, off, val)
        if d:
            if off in d.ints:
                self.number(st, o, off, val[3] if write == 'rmw' and val else val)
            elif off in d.bools:
                self.flag(st, o, off, val)
            elif off == d.index:
                self.at_index(st, o, off, val)
        elif write is True and self.state_part(o, off) == 'status' and val is not None and self.is_zero(st, val) is not True:
            if not self.dying(st):
                st.mon['Wz'] = True
            if self.promised(st, o) and not (self.creator and self.in_task(st)) and (not self.creator or 'Wt' in st.mon):
                self.content(st, o)

    def handed(self, st, o, off, val):
        """what a continuation stored goes into the value of the combined future"""
        w = st.mon['Ws']
        k = OBJ.keys[w[0][1]]
        if k[0] == 'el' and val[0] == 'p' and OBJ.keys[val[1]][:2] == ('el', k[1]) or k[0] != 'el' and val == w[2]:
            st.mon['Wh'] = True

    def number(self, st, o, off, val):
        pass

    def flag(self, st, o, off, val):
        pass

    def at_index(self, st, o, off, val):
        pass

    def content(self, st, o):
        pass

    def slot(self, st, o, off, s, val):
        c = s[0]
        if self.locked(st, c):
            if self.creator:
                # a continuation that runs at once puts the future back where it came from
                for p in st.mon.get('Wp', ()):
                    if p[0] == val and self.in_task(st):
                        self.n['future put back'] += 1
                        if p[1:] != (('#o', o), off):
                            self.viol(st, 'a future is put back at the place of another input', 'place')
                return
            if self.own_value(st, c, val):
                self.n['future stored'] += 1
                w = st.mon.get('Ws')
                if w and w[:2] != (('#o', o), off):
                    self.viol(st, 'a continuation stores its future twice', 'stores')
                st.mon['Ws'] = (('#o', o), off, val)
                i = self.origin(split_add(s[1])[0])
                if i and i[0] == c:
                    self.viol(st, 'the place of a future does not depend on the input it belongs to', 'place')
            return
        if self.creator and self.own_value(st, c, val):
            st.mon['Wo'] = ('#o', c)
            self.n['input placed'] += 1
            a = self.origin(val)
            k = OBJ.keys[a[0]]
            if k[0] == 'arg' and OBJ.keys[o][0] != 'el':
                if s[1] != ('i', k[1]):
                    self.viol(st, 'an input is placed at the position of another one', 'position')
            e = (val, ('#o', o), off)
            old = () if OBJ.keys[o][0] == 'el' else tuple(x for x in st.mon.get('Wp', ()) if x[1:] != e[1:])
            st.mon['Wp'] = old + (e,)

    # ---- the creator
    def thenlike(self, st, fn):
        return fn.base == 'then' and strip_targs(fn.cls) in ('tpp::future', 'tpp::shared_future') and self.creator \
            and not any(not isinstance(f, NFrame) and f.fn is not fn and f.fn.base == 'then'
                        and strip_targs(f.fn.cls) in ('tpp::future', 'tpp::shared_future') for f in st.frames)

    def on_leave(self, st, fn, v):
        if self.mine and self.thenlike(st, fn):
            self.n['input attached'] += 1
            st.mon['Wt'] = min(st.mon.get('Wt', 0) + 1, 9)
            if self.eng.root.endswith('_it'):
                st.mon['Wt'] = 1
            self.attached(st)

    def attached(self, st):
        pass

    def on_end(self, st, kind, v):
        if kind != 'return':
            return
        if self.mine:
            self.n['combination made'] += 1
            if 'Wt' not in st.mon:
                self.n['combination of nothing'] += 1
                if 'Wz' not in st.mon or 'Wo' in st.mon:
                    self.viol(st, 'a combination of no inputs is not ready', 'empty')
                return
            self.made(st)
        elif not self.creator and 'Wo' in st.mon and self.lay(self.comb(st)):
            c = self.comb(st)
            p = st.mem.get(c, EMPTY).get(self.lay(c).promise)
            if p and self.is_zero(st, p[0]) is True:
                return      # the promise is never moved away
            self.n['continuation done'] += 1
            self.continued(st)

    def made(self, st):
        """the creator returns"""
        c = self.comb(st)
        d = self.lay(c)
        if d.slots:
            want = len(d.slots)
            if st.mon['Wt'] != want:
                self.viol(st, 'not every input is attached once', 'attach')
            if {x[1:] for x in st.mon.get('Wp', ())} != {(('#o', c), s) for s in d.slots}:
                self.viol(st, 'not every input is placed in the result', 'placed')
            if not any(x[1] == ('i', want) for x in st.mon.get('Wn', ())):
                self.viol(st, 'the number of inputs is wrong', 'total')
        else:
            for off, x in st.mon.get('Wn', ()):
                b, k = split_add(x)
                if b[0] == 't' and b[1] in ('sdiv', 'ashr', 'lshr', 'udiv') and k:
                    self.viol(st, 'the number of inputs is wrong', 'total')

    def continued(self, st):
        pass


def base_of(o):
    k = OBJ.keys[o]
    return k[1] if k[0] == 'el' else o


def Roles_is_mutex(t):
    return t.startswith('std::') and t.endswith('mutex')


class W01(CombRule):
    id = 'W01'
    title = ('a continuation of when_all stores its future in the slot the input came from, before or in the critical section that '
             'counts it, counts once, and completes the combined future if and only if the count is known to have reached the '
             'number of inputs; the value is the result as a whole; the creator attaches every input once, in order')

    def number(self, st, o, off, val):
        if self.creator:
            if not self.in_task(st):
                st.mon['Wn'] = tuple(x for x in st.mon.get('Wn', ()) if x[0] != off) + ((off, val),)
            return
        c = st.mem.get(o, EMPTY).get(off)
        st.mon['Wo'] = ('#o', o)
        self.n['input counted'] += 1
        if not self.locked(st, o):
            self.viol(st, 'an input is counted without the lock', 'lock')
        if c:
            b, k = split_add(val)
            b0, k0 = split_add(c[0])
            if b != b0 or (k - k0) % (1 << 64) not in (1, (1 << 64) - 1):
                self.viol(st, 'the count does not change by one', 'step')
        if 'Wc' in st.mon:
            self.viol(st, 'an input is counted twice', 'again')
        st.mon['Wc'] = (off, val)

    def on_unlock(self, st, loc):
        d = self.lay(loc[0])
        if self.creator or not d or loc[1] != d.lock or 'Wc' not in st.mon:
            return
        if 'Ws' not in st.mon:
            self.viol(st, 'an input is counted before its future is stored', 'order')
        if 'Wq' not in st.mon:
            q = self.reached(st, loc[0], st.mon['Wc'])
            if q is not None:
                st.mon['Wq'] = q

    def content(self, st, o):
        w = st.mon.get('Ws')
        if not w:
            return
        self.n['result handed over'] += 1
        if 'Wh' not in st.mon:
            self.viol(st, 'the combined future is completed without the futures that became ready', 'content')

    def attempt(self, st):
        if self.creator:
            return
        super().attempt(st)
        if st.mon.get('Wq') is not True:
            c = self.comb(st)
            if 'Wc' not in st.mon or self.reached(st, c, st.mon['Wc']) is not True:
                self.viol(st, 'the combined future is completed before all inputs are ready', 'early')

    def continued(self, st):
        if 'Ws' not in st.mon or 'Wc' not in st.mon:
            self.viol(st, 'an input that became ready is not stored and counted', 'lost')
        elif st.mon.get('Wq') is not False and not st.mon.get('Wd'):
            self.viol(st, 'the last input does not complete the combined future', 'never')

    @classmethod
    def finish(cls, ctx):
        ctx.need('future stored', 5)
        ctx.need('input counted', 5)
        ctx.need('continuation done', 5)
        ctx.need('completion', 5)
        ctx.need('result handed over', 5)
        ctx.need('input placed', 5)
        ctx.need('input attached', 5)
        ctx.need('future put back', 3)
        ctx.need('combination of nothing', 2)


class W02(CombRule):
    id = 'W02'
    title = ('a continuation of when_any that finds no input ready yet stores readiness, its position and its future in one critical '
             'section, later ones store nothing; the combined future is completed only by who sets the flag for it, found unset, '
             'after every input was attached and counted, with every input valid; the creator looks for a ready input after the '
             'last one was counted')
    any = True

    # mon: Wb ((offset, known value when first looked at),) flags seen in the section; Wf flags set that were unset;
    #      Wi (index value); Wk flags known at the section in which the creator looked; Ww, We loop over the slots, slot looked at
    def section(self, st, c):
        st.mon['Wb'] = ()
        st.mon['Wf'] = ()
        st.mon.pop('Wi', None)
        if self.mine and not self.in_task(st):
            if st.mon.get('Wx'):
                self.viol(st, 'the creator looks for a ready input before the last one is counted', 'look')

    def looked(self, st, o, off, v):
        d = self.lay(o)
        if d and off in d.bools and self.locked(st, o) and not any(x[0] == off for x in st.mon.get('Wb', ())):
            st.mon['Wb'] = st.mon.get('Wb', ()) + ((off, v),)
        s = self.cell_of(st, o, off)
        if s and self.locked(st, s[0]) and OBJ.keys[o][0] == 'el' and not (self.creator and self.in_task(st)):
            self.passing(st, o, off, s, v)

    def number(self, st, o, off, val):
        if self.creator and not self.in_task(st):
            old = dict(st.mon.get('Wn', ())).get(off)
            if 'Wt' in st.mon and val is not None:
                self.n['input counted'] += 1
                if not st.mon.get('Wx'):
                    self.viol(st, 'an input is counted before it is attached', 'count')
                st.mon['Wx'] = 0
            else:
                st.mon['Wn'] = tuple(x for x in st.mon.get('Wn', ()) if x[0] != off) + ((off, val),)
                if 'Wx' not in st.mon and self.lay(o):
                    st.mon['Wo'] = ('#o', o)
        elif not self.creator:
            self.viol(st, 'a continuation changes the number of inputs', 'number')

    def attached(self, st):
        if st.mon.get('Wx'):
            self.viol(st, 'an input is attached and not counted', 'uncounted')
        st.mon['Wx'] = 1

    def known(self, st, v):
        z = self.is_zero(st, v)
        return None if z is None else not z

    def flag(self, st, o, off, val):
        if not self.locked(st, o):
            return
        b = dict(st.mon.get('Wb', ()))
        c = st.mem.get(o, EMPTY).get(off)
        old = b[off] if off in b else c[0] if c else None
        if val is None or self.is_zero(st, val) is not False:
            if old is not None and self.is_zero(st, old) is not True:
                self.viol(st, 'a flag of the combination is taken back', 'back')
            return
        if old is not None and self.known(st, old) is False and off not in st.mon.get('Wf', ()):
            st.mon['Wf'] = st.mon.get('Wf', ()) + (off,)

    def at_index(self, st, o, off, val):
        if self.locked(st, o) and not (self.creator and not self.in_task(st)):
            st.mon['Wi'] = val

    def slot(self, st, o, off, s, val):
        super().slot(st, o, off, s, val)
        if st.mon.get('We', ((),))[0] == ('#o', o):
            st.mon.pop('We')

    # ---- every input is valid when the result is handed over: slot by slot, or a loop over the slots before the buffer is given away
    def on_access(self, st, o, off, size, write, atomic, val):
        d = self.lay(o) if write is True and val == ZERO else None
        if d and off in d.slots and self.locked(st, o) and (not self.creator or not self.in_task(st)):
            c = st.mem.get(o, EMPTY).get(off)
            a = self.origin(c[0]) if c else None
            self.n['input handed back'] += 1
            if not (c and self.is_zero(st, c[0]) is False) and \
                    not (a and a[0] == o and any(b <= a[1] < b + z for b, z in d.states)) and \
                    not self.never(st, o, d, d.slots[off]):
                self.viol(st, 'an input is handed back invalid', 'invalid')
        super().on_access(st, o, off, size, write, atomic, val)

    def never(self, st, o, d, i):
        """the state kept for the slot is known to be empty: the input was not valid"""
        c = st.mem.get(o, EMPTY).get(d.states[i][0]) if i < len(d.states) else None
        return bool(c) and c[0] == ZERO

    def passing(self, st, o, off, s, v):
        k = OBJ.keys[o]
        w = st.mon.get('Ww')
        if st.mon.get('We', ((),))[0] == ('#o', o):
            return
        if self.is_zero(st, k[2]) is True:
            self.settle(st)
            st.mon['Ww'] = (('#o', k[1]), UNDEF, (ONE,))
        elif w and w[0] == ('#o', k[1]) and any(n == k[2] or self.truth(st, mk_eq(n, k[2])) is True for n in w[2]):
            self.settle(st)
            st.mon['Ww'] = w[:2] + (tuple(bump(self.eng, n) for n in w[2]),)
        else:
            return
        st.mon['We'] = (('#o', o), v)

    def settle(self, st):
        e = st.mon.pop('We', None)
        if e and self.is_zero(st, e[1]) is not False and not self.void(st, e[0][1]):
            self.viol(st, 'an input is handed back invalid', 'invalid')

    def void(self, st, o):
        """the state kept for the slot is known to be empty: the input was not valid"""
        i = OBJ.keys[o][2]
        d = self.lay(self.comb(st))
        for e, c in st.mem.items():
            k = OBJ.keys[e]
            if k[0] == 'el' and e != o and k[2] == i and 0 in c and c[0][0] == ZERO:
                own = self.owner(st, k[1])
                if own is None or any(b <= own[1] < b + z for b, z in d.states):
                    return True
        return False

    def on_prewiden(self, st, v):
        self.settle(st)
        super().on_prewiden(st, v)

    def on_vec(self, st, o, base, old, new):
        d = self.lay(o)
        if d and base in d.vecs and old and old[0] is not None and (new is None or new[0] is None) and self.locked(st, o) \
                and not (self.creator and self.in_task(st)):
            self.n['input handed back'] += 1
            self.settle(st)
            w = st.mon.pop('Ww', None)
            if not (w and w[0] == ('#o', old[0]) and any(n == old[1] or self.truth(st, mk_eq(n, old[1])) is True
                                                         or self.truth(st, mk_ult(n, old[1])) is False for n in w[2])) \
                    and self.is_zero(st, old[1]) is not True:
                self.viol(st, 'not every input is looked after before it is handed back', 'recover')

    def names(self, c, off):
        return self.eng.field(c, off)

    def on_unlock(self, st, loc):
        d = self.lay(loc[0])
        if not d or loc[1] != d.lock:
            return
        c = loc[0]
        b = {off: self.known(st, v) for off, v in st.mon.get('Wb', ())}
        f = st.mon.get('Wf', ())
        if self.creator and not self.in_task(st):
            self.n['creator looked for a ready input'] += 1
            self.judge(st, c, f, b, 'creator')
            st.mon['Wk'] = True
            return
        if self.creator:
            return
        won = 'Wi' in st.mon
        if won:
            w = st.mon.get('Ws')
            self.n['first input'] += 1
            if not w:
                self.viol(st, 'the position of an input is stored without its future', 'future')
            else:
                s = self.cell_of(st, w[0][1], w[1])
                if not s or not (s[1] == st.mon['Wi'] or self.truth(st, mk_eq(s[1], st.mon['Wi'])) is True):
                    self.viol(st, 'the position stored is not that of the input', 'position')
            if not f:
                self.viol(st, 'an input overrides the one that was first', 'override')
        elif st.mon.get('Ws') and 'Wr' not in st.mon:
            self.viol(st, 'the future of an input is stored but not its position', 'noindex')
        elif not any(v is True for v in b.values()) and 'Wr' not in st.mon:
            self.viol(st, 'an input that is ready is ignored although none was before', 'ignored')
        if won:
            st.mon['Wr'] = True
            q = self.all_counted(st, c)
            st.mon['Wq'] = q if q is not None else 0
            self.judge(st, c, f, b, 'continuation')

    def all_counted(self, st, c):
        xs = [st.mem.get(c, EMPTY).get(off) for off in self.lay(c).ints]
        xs = [x[0] for x in xs if x]
        return self.truth(st, mk_eq(xs[0], xs[1])) if len(xs) == 2 else None

    def judge(self, st, c, f, b, who):
        """data for the end: which flags were set, which were known, completed or not"""
        q = st.mon.get('Wq') if who == 'continuation' else True
        self.data.append((who, tuple(sorted(self.names(c, x) for x in f)),
                          tuple(sorted((self.names(c, x), v) for x, v in b.items() if v is not None)), q,
                          self.eng.root, self.eng.where(st)))
        st.mon['Wm'] = tuple(f)

    def attempt(self, st):
        if self.creator and self.in_task(st):
            return
        if self.creator and 'Wk' not in st.mon and not any(l[0] == self.comb(st) for l in st.locks):
            return
        super().attempt(st)
        need = 1 if self.creator else 2
        if len(st.mon.get('Wf', ())) < need and len(st.mon.get('Wm', ())) < need:
            self.viol(st, 'the combined future is completed without setting the flag for it', 'noflag')
        if not self.creator and st.mon.get('Wq') is not True and self.all_counted(st, self.comb(st)) is not True:
            self.viol(st, 'the combined future is completed although not every input is attached', 'early')

    def continued(self, st):
        if len(st.mon.get('Wm', ())) > 1 and not st.mon.get('Wd'):
            self.viol(st, 'the combined future is marked complete and not completed', 'never')

    def made(self, st):
        super().made(st)
        if 'Wk' not in st.mon:
            self.viol(st, 'the creator does not look for inputs that were ready before the last one was attached', 'nolook')
        elif len(st.mon.get('Wm', ())) > 0 and not st.mon.get('Wd'):
            self.viol(st, 'the combined future is marked complete and not completed', 'never')

    @classmethod
    def finish(cls, ctx):
        ctx.need('first input', 5)
        ctx.need('future stored', 5)
        ctx.need('continuation done', 5)
        ctx.need('completion', 5)
        ctx.need('input placed', 5)
        ctx.need('input attached', 5)
        ctx.need('input counted', 5)
        ctx.need('combination of nothing', 2)
        ctx.need('input handed back', 6)
        ctx.need('creator looked for a ready input', 3)
        if ctx.violations:
            return
        sets = [d for d in ctx.data if d[0] == 'continuation' and d[1]]
        ready = set(sets[0][1]).intersection(*(d[1] for d in sets)) if sets else set()
        done = {x for d in sets for x in d[1]} - ready
        for d in ctx.data:
            known = dict(d[2])
            if d[0] == 'creator':
                completes = set(d[1]) & done
                if completes and not any(known.get(x) is True for x in ready):
                    ctx.violate('the creator completes the combined future although no input is known to be ready', d[5], d[4])
                elif not completes and not any(known.get(x) is False for x in ready) \
                        and not any(known.get(x) is True for x in done):
                    ctx.violate('the creator does not complete the combined future although an input may be ready', d[5], d[4])
            else:
                completes = set(d[1]) & done
                if not completes and d[3] is not False and not any(known.get(x) is True for x in done):
                    ctx.violate('the first input does not complete the combined future although every input is attached', d[5], d[4])


RULES = [W01, W02]
