"""Path-sensitive abstract interpretation of the IR (no solver, no execution).

A state is a call stack, an abstract memory, a set of branch facts, the set of
locks held and the typestate of the active rules.  Values are constants,
addresses, symbols and shallow terms over symbols.  Memory that other threads
can reach is only remembered while the lock sitting next to it is held.  Loops
are cut by merging equal states after renaming and widening.
"""
import sys
from .program import CheckError, strip_targs, targs

sys.setrecursionlimit(20000)


class Intern:
    def __init__(self):
        self.ids = {}
        self.keys = []

    def __call__(self, key):
        k = self.ids.get(key)
        if k is None:
            k = len(self.keys)
            self.ids[key] = k
            self.keys.append(key)
        return k


OBJ = Intern()   # abstract objects
SYM = Intern()   # symbols
CTX = Intern()   # call strings
CTX(('root',))

UNDEF = ('u',)
ZERO = ('i', 0)
ONE = ('i', 1)
VOID = ('void',)
THROW = ('#throw',)     # model outcome: st.exc is set, unwind
DEAD = ('#dead',)       # model outcome: the path ends here
CALLED = ('#called',)   # model outcome: a frame was pushed


class Cut(Exception):
    """raised by a model: the path cannot be followed further"""


class Fork:
    """model outcome: several (state, outcome) alternatives"""

    def __init__(self, alts):
        self.alts = alts


def sym(key):
    return ('s', SYM(key))


class Cells(dict):
    __slots__ = ('k',)

    def key(self):
        try:
            return self.k
        except AttributeError:
            self.k = hash(frozenset(self.items()))
            return self.k


EMPTY = Cells()
NOTYPES = {}


class Frame:
    __slots__ = ('fn', 'ctx', 'bb', 'ip', 'env', 'allocas', 'loops', 'args')

    def __init__(self, fn, ctx):
        self.fn = fn
        self.ctx = ctx
        self.bb = 0
        self.ip = 0
        self.env = {}
        self.allocas = ()
        self.loops = None
        self.args = ()

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.ctx = self.ctx
        f.bb = self.bb
        f.ip = self.ip
        f.env = dict(self.env)
        f.allocas = self.allocas
        f.loops = self.loops
        f.args = self.args
        return f

    def key(self):
        return (self.ctx, self.bb, self.ip, frozenset(self.env.items()))

    def ins(self):
        return self.fn.blocks[self.bb][self.ip]


class NFrame:
    """a modelled library function waiting for a callee"""
    __slots__ = ('handler', 'data', 'ctx', 'fn', 'onunwind')

    def __init__(self, handler, data, ctx, fn, onunwind=None):
        self.handler = handler
        self.data = data
        self.ctx = ctx
        self.fn = fn
        self.onunwind = onunwind

    def copy(self):
        return self

    def key(self):
        return (self.ctx, self.handler.__name__, self.data)


class St:
    __slots__ = ('frames', 'mem', 'facts', 'locks', 'priv', 'exc', 'caught', 'mon', 'trace', 'created', 'esc', 'past')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.facts = {}
        self.locks = ()      # ((obj, off), ...)
        self.priv = frozenset()   # buffers moved out of shared containers
        self.exc = None
        self.caught = ()
        self.mon = {}
        self.trace = None
        self.created = set()
        self.esc = frozenset()
        self.past = None     # joins passed: (key, depth, context, block, is a loop header, earlier ones)

    def copy(self):
        s = St.__new__(St)
        s.frames = list(self.frames)
        if s.frames:
            s.frames[-1] = s.frames[-1].copy()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.locks = self.locks
        s.priv = self.priv
        s.exc = self.exc
        s.caught = self.caught
        s.mon = dict(self.mon)
        s.trace = self.trace
        s.created = set(self.created)
        s.esc = self.esc
        s.past = self.past
        return s

    def key(self):
        return hash((tuple(f.key() for f in self.frames),
                     frozenset((o, c.key()) for o, c in self.mem.items()),
                     frozenset(self.facts.items()), self.locks, self.priv,
                     self.exc, self.caught, frozenset(self.mon.items()), self.esc))


# ------------------------------------------------------------------ terms
def depth(v):
    if v[0] == 't':
        return 1 + max((depth(x) for x in v[2:]), default=0)
    if v[0] == 'n':
        return 1 + depth(v[1])
    return 0


def mask(n, size):
    return n & ((1 << (8 * size)) - 1)


def signed(n, size):
    n = mask(n, size)
    return n - (1 << (8 * size)) if n >> (8 * size - 1) else n


def neg(p):
    if p[0] == 'i':
        return ('i', 0 if p[1] else 1)
    if p[0] == 'n':
        return p[1]
    return ('n', p)


DISTINCT = ('A', 'H', 'G', 'T', 'arg')


def base_obj(o):
    """underlying object of an element/derived object"""
    k = OBJ.keys[o]
    while k[0] in ('el', 'nd', 'der'):
        o = k[1]
        k = OBJ.keys[o]
    return o


def reread(a, b):
    """are these buffers results of two unprotected reads of one vector? (they may be the same)"""
    ka, kb = OBJ.keys[a], OBJ.keys[b]
    if ka[0] != '*' or kb[0] != '*' or ka[1][0] != 's' or kb[1][0] != 's':
        return False
    sa, sb = SYM.keys[ka[1][1]], SYM.keys[kb[1][1]]
    return sa[0] == sb[0] == 'R' and sa[-2:] == sb[-2:]


def ptr_eq(a, b):
    """1/0/None for pointer-like values a, b (already known to be not identical)"""
    if a[0] == 'p' and b[0] == 'p':
        if a[1] == b[1]:
            return 1 if a[2] == b[2] else 0
        ka, kb = OBJ.keys[a[1]], OBJ.keys[b[1]]
        if ka[0] == kb[0] and ka[0] in ('el', 'nd') and ka[1] == kb[1] and a[2] == b[2]:
            return ('idx', ka[2], kb[2])
        if ka[0] == kb[0] == 'el' and (ka[2] == ZERO) != (kb[2] == ZERO) and reread(ka[1], kb[1]):
            return None
        if ka[0] in DISTINCT and kb[0] in DISTINCT:
            return 0
        if ka[0] in ('el', 'nd') or kb[0] in ('el', 'nd'):
            return 0
        if ka[0] in ('A', 'H') or kb[0] in ('A', 'H'):
            return 0
        return None
    if a[0] == 'p' and b[0] == 'i' or a[0] == 'i' and b[0] == 'p':
        return 0
    if a[0] in 'fx' and b[0] in 'if' or b[0] in 'fx' and a[0] in 'if':
        return 0
    if a[0] == 'p' and OBJ.keys[a[1]][0] in ('A', 'H') and b[0] in ('s', 't'):
        return 0
    if b[0] == 'p' and OBJ.keys[b[1]][0] in ('A', 'H') and a[0] in ('s', 't'):
        return 0
    return None


def nonneg_pos(v):
    """v is a sum with a positive constant (sizes, counters): never zero"""
    return v[0] == 't' and v[1] == 'add' and v[3][0] == 'i' and 0 < v[3][1] < (1 << 31)


def split_add(v):
    if v[0] == 't' and v[1] == 'add' and v[3][0] == 'i':
        return v[2], signed(v[3][1], 8)
    return v, 0


def order(a):
    return (a[0] == 'i', a[0] in ('p', 'f'), repr(a))


def mk_eq(a, b):
    if a == b:
        return ONE
    if a[0] == 'i' and b[0] == 'i':
        return ONE if a[1] == b[1] else ZERO
    r = ptr_eq(a, b)
    if r is not None:
        if isinstance(r, tuple):
            return mk_eq(r[1], r[2]) if r[1][0] != '@' and r[2][0] != '@' else ZERO
        return ('i', r)
    # the control block of a shared pointer is null iff the pointer is
    if a[0] == 't' and a[1] == 'pi' and b == ZERO:
        return mk_eq(a[2], b)
    if b[0] == 't' and b[1] == 'pi' and a == ZERO:
        return mk_eq(b[2], a)
    # a distance between pointers
    for x, y in ((a, b), (b, a)):
        if x[0] == 't' and x[1] == 'sdiv' and y[0] == 'i' and x[3][0] == 'i' and x[2][0] == 't' \
                and x[2][1] == 'sub' and y[1] < 1 << 32:
            l, f = x[2][2], x[2][3]
            n = y[1] * x[3][1]
            if f[0] == 's':
                return mk_eq(l, ('p', OBJ(('*', f)), n) if n else f)
            if f[0] == 'p' and isinstance(f[2], int) and OBJ.keys[f[1]][0] == '*':
                return mk_eq(l, Engine.mkptr(f[1], f[2] + n))
    xa, ca = split_add(a)
    xb, cb = split_add(b)
    if ca or cb:
        if xa == xb:
            return ONE if ca == cb else ZERO
        if b[0] == 'i' and ca:
            v = signed(b[1], 8) - ca
            if v < 0:
                return ZERO
            return mk_eq(xa, ('i', mask(v, 8)))
        if a[0] == 'i' and cb:
            v = signed(a[1], 8) - cb
            if v < 0:
                return ZERO
            return mk_eq(xb, ('i', mask(v, 8)))
    # booleans compared with a constant
    if b[0] == 'i' and (a[0] == 'n' or a[0] == 't' and a[1] in PRED):
        if b[1] == 0:
            return neg(a)
        if b[1] == 1:
            return a
        return ZERO
    if order(a) > order(b):
        a, b = b, a
    return ('t', 'eq', a, b)


PRED = ('eq', 'ult', 'slt', 'b', 'and', 'or', 'has', 'unk')


def mk_ult(a, b):
    if a == b or b == ZERO:
        return ZERO
    if a[0] == 'i' and b[0] == 'i':
        return ONE if a[1] < b[1] else ZERO
    if a == ZERO:
        return neg(mk_eq(b, ZERO))
    if b == ONE:
        return mk_eq(a, ZERO)
    xa, ca = split_add(a)
    xb, cb = split_add(b)
    if xa == xb:
        return ONE if ca < cb else ZERO
    if a[0] == 'p' and b[0] == 'p' and a[2] == b[2]:
        ka, kb = OBJ.keys[a[1]], OBJ.keys[b[1]]
        if ka[0] == 'el' and kb[0] == 'el' and ka[1] == kb[1] and '@' not in (ka[2][0], kb[2][0]):
            return mk_ult(ka[2], kb[2])
    return ('t', 'ult', a, b)


def mk_slt(a, b, size):
    if a == b:
        return ZERO
    if a[0] == 'i' and b[0] == 'i':
        return ONE if signed(a[1], size) < signed(b[1], size) else ZERO
    return ('t', 'slt', a, b)


def to_bool(v):
    """i1 view of a value"""
    if v[0] == 'i':
        return ('i', v[1] & 1)
    if v[0] == 'n' or v[0] == 't' and v[1] in PRED:
        return v
    if v[0] == 't' and v[1] == 'xor' and v[3] == ONE:
        return neg(to_bool(v[2]))
    return ('t', 'b', v)


def is_pred(v):
    return v[0] == 'n' or v[0] == 't' and v[1] in PRED


class PathEnd(Exception):
    pass


class Violation:
    def __init__(self, rule, msg, where, trace, key):
        self.rule = rule
        self.msg = msg
        self.where = where
        self.trace = trace
        self.key = key


class Found(Exception):
    """a violation is established: the rest of the root need not be explored"""


class Engine:
    WIDEN = 1
    MAXDEPTH = 90
    MAX_STATES = 400000

    def __init__(self, prog, rules=(), written=None):
        self.prog = prog
        self.rules = list(rules)
        self.handlers = {}
        for r in self.rules:
            r.eng = self
            for n in dir(r):
                if n.startswith('on_'):
                    self.handlers.setdefault(n[3:], []).append(getattr(r, n))
        self._tk = {}
        self.types = {}        # obj -> {off: set(struct)}
        self._fld = {}
        self._grd = {}
        self.bufowner = {}
        self.elsize = {}
        self.notes_nodes = {}
        self.written = written   # fields written while shared (None: unknown, all volatile)
        self.seen_written = set()
        self.violations = {}
        self.stats = dict(states=0, insts=0, forks=0, merged=0, paths=0, entries=0)
        self.fns_seen = set()
        self.unmodelled = {}
        self.notes = {}
        self.tinfo = Intern()
        self.tinfo('')
        from . import models
        self.models = models
        self.ops = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith('op_')}
        self.root = None
        self.known = None       # violations to go on after, all if None
        self.private_types = ()
        hooks = [r.hook for r in self.rules if hasattr(r, 'hook')]
        self.load_hook = None
        if len(hooks) == 1:
            self.load_hook = hooks[0]
        elif hooks:
            def load_hook(st, o, off):
                for h in hooks:
                    v = h(st, o, off)
                    if v is not None:
                        return v
            self.load_hook = load_hook
        self.reset_caches()

    def reset_caches(self):
        self.deepsyms = {}
        self.visited = set()

    # ---------------------------------------------------------------- events
    def emit(self, kind, st, *a, **kw):
        for h in self.handlers.get(kind, ()):
            h(st, *a, **kw)

    def note(self, text):
        self.notes[text] = self.notes.get(text, 0) + 1

    def tr(self, st, what, ins=None):
        st.trace = ((what, self.where(st, ins)), st.trace)

    def where(self, st, ins=None):
        """innermost repository location on the stack"""
        for fr in reversed(st.frames):
            if isinstance(fr, NFrame):
                continue
            i = fr.ins()
            if self.prog.loc_repo(i):
                return '%s (%s)' % (self.prog.loc(i), fr.fn.short())
        for fr in reversed(st.frames):
            if not isinstance(fr, NFrame):
                return '%s (%s)' % (self.prog.loc(fr.ins()), fr.fn.short())
        return '?'

    def stack(self, st):
        res = []
        for fr in st.frames:
            if isinstance(fr, NFrame):
                continue
            i = fr.ins()
            if self.prog.loc_repo(i) or fr.fn.repo or not res:
                res.append('%s  %s' % (self.prog.loc(i), fr.fn.short()))
        return res

    def violation(self, st, rule, msg, key=None):
        w = self.where(st)
        k = (rule, key or msg, w)
        if k in self.violations:
            return
        steps = []
        t = st.trace
        while t and len(steps) < 60:
            steps.append('%s @ %s' % t[0])
            t = t[1]
        steps.reverse()
        self.violations[k] = dict(property=rule, message=msg, where=w, entry=self.root, stack=self.stack(st), trace=steps)
        if self.known is not None and msg not in self.known:
            raise Found

    # ---------------------------------------------------------------- types
    def tkey(self, obj):
        """elements of one container share their type"""
        r = self._tk.get(obj)
        if r is None:
            k = OBJ.keys[obj]
            r = obj
            if k[0] in ('el', 'nd'):
                b = k[1]
                while OBJ.keys[b][0] == 'der':
                    b = OBJ.keys[b][1]
                r = OBJ((k[0], b, ('@', 't')) + k[3:])
            self._tk[obj] = r
        return r

    def T(self, obj):
        return self.types.get(self.tkey(obj), NOTYPES)

    def annotate(self, obj, off, name):
        obj = self.tkey(obj)
        t = self.types.get(obj)
        if t is None:
            t = self.types[obj] = {}
        s = t.get(off)
        if s is None:
            t[off] = {name}
        elif name in s:
            return
        else:
            s.add(name)
        self._fld = {}
        self._grd = {}

    def typed_at(self, obj, off, prefix):
        return any(n.split('.', 1)[-1].startswith(prefix) for n in self.T(obj).get(off, ()))

    def path(self, obj, off):
        """[(base offset, record, member)] from the outermost repository struct to the member at off"""
        best = None
        for b, names in self.T(obj).items():
            if b > off:
                continue
            for n in names:
                if not self.prog.is_repo_struct(n):
                    continue
                sz = self.prog.structs.get(n, {}).get('size', 0)
                if off < b + sz:
                    if best is None or (b, -sz) < (best[0], -best[2]):
                        best = (b, n, sz)
        if not best:
            return []
        rec = self.prog.record_for(best[1])
        res = []
        base = best[0]
        for _ in range(12):
            if rec is None:
                break
            mem = None
            for m in rec['members']:
                if m[1] <= off - base and (m[2] == 0 or off - base < m[1] + m[2]):
                    if mem is None or m[1] > mem[1] or m[2] > 0:
                        mem = m
            if mem is None:
                break
            res.append((base, rec, mem))
            nxt = self.repo_record(mem[3], mem[2])
            if nxt is None:
                break
            base += mem[1]
            rec = nxt
        return res

    def repo_record(self, tname, size):
        if tname.endswith('*') or tname.endswith('&'):
            return None
        n = strip_targs(tname)
        if n.startswith('std::') or n.startswith('user::') or n.startswith('__gnu'):
            return None
        for r in self.prog.records.get(n, ()):
            if r['name'] == tname:
                return r
        for r in self.prog.records.get(n, ()):
            if r['size'] == size:
                return r
        return None

    def field(self, obj, off):
        """'struct.member' naming of a location, or None"""
        k = (obj, off)
        if k in self._fld:
            return self._fld[k]
        o = obj
        f = off
        kk = OBJ.keys[o]
        r = None
        p = self.path(o, f)
        if p:
            base, rec, mem = p[-1]
            r = strip_targs(rec['name']).split('::')[-1] + '.' + mem[0]
        elif kk[0] in ('el', 'nd', 'der'):
            r = None
        self._fld[k] = r
        return r

    def owner_field(self, obj, off):
        """field of the struct that (through containers) contains the location"""
        seen = 0
        while seen < 6:
            k = OBJ.keys[obj]
            if k[0] in ('el', 'nd', 'der'):
                obj, off = k[1], 0
            elif obj in self.bufowner:
                obj, off = self.bufowner[obj]
                f = self.field(obj, off)
                if f:
                    return f, obj, off
            else:
                return self.field(obj, off), obj, off
            seen += 1
        return None, obj, off

    def mutexes_of(self, rec, base):
        res = []
        for m in rec['members']:
            t = m[3]
            if t in ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex',
                     'std::recursive_timed_mutex', 'std::shared_timed_mutex'):
                res.append(base + m[1])
            elif m[0] == '<base>':
                r = self.repo_record(t, m[2])
                if r:
                    res += self.mutexes_of(r, base + m[1])
        return res

    def guards(self, obj, off):
        """locations of the mutexes living next to (obj, off)"""
        k = (obj, off)
        g = self._grd.get(k)
        if g is not None:
            return g
        g = ()
        o, f = obj, off
        for _ in range(8):
            p = self.path(o, f)
            found = None
            for base, rec, mem in reversed(p):
                ms = self.mutexes_of(rec, base)
                if ms:
                    found = tuple((o, x) for x in ms)
                    break
            if found:
                g = found
                break
            kk = OBJ.keys[o]
            if kk[0] in ('el', 'nd', 'der'):
                o, f = kk[1], 0
                continue
            if o in self.bufowner:
                o, f = self.bufowner[o]
                continue
            break
        self._grd[k] = g
        return g

    # ---------------------------------------------------------------- objects
    def kind(self, obj):
        return OBJ.keys[obj][0]

    def root_of(self, obj):
        """follow containers to the object that holds them"""
        for _ in range(12):
            k = OBJ.keys[obj]
            if k[0] in ('el', 'nd', 'der'):
                obj = k[1]
            elif obj in self.bufowner:
                obj = self.bufowner[obj][0]
            else:
                return obj
        return obj

    def shared(self, st, obj):
        k = OBJ.keys[obj]
        kind = k[0]
        if kind == 'A' or kind == 'T' or obj in st.priv:
            return False
        if kind == 'H':
            return obj in st.esc
        if kind == 'G':
            return not self.prog.globals.get(k[1], {}).get('const')
        if kind in ('el', 'nd', 'der'):
            return self.shared(st, k[1])
        if obj in self.bufowner:
            return self.shared(st, self.bufowner[obj][0])
        if kind == 'arg':
            return k[2]
        if kind == '*':
            v = k[1]
            # closures run by one thread only are private to it
            if v[0] == 's':
                sk = SYM.keys[v[1]]
                if sk[0] == 'I' and OBJ.keys[sk[1]][0] == 'arg' and OBJ.keys[sk[1]][3] == 'closure':
                    return False
            for names in self.T(obj).values():
                for n in names:
                    if n.startswith('class.anon') or n.startswith('struct.anon'):
                        return False
            return True
        return True

    def lazy(self, obj, st=None):
        """unwritten cells hold unknown initial values"""
        k = OBJ.keys[obj]
        if st is not None and 'lossy' in st.mem.get(obj, EMPTY):
            return True
        if k[0] == 'el' and k[2][0] in ('s', 't'):
            return True
        if k[0] in ('*', 'arg', 'G', 'T'):
            return True
        if k[0] == 'der':
            return True
        if k[0] in ('el', 'nd'):
            return self.lazy(k[1], st)
        return k[0] == 'H' and k[-1] == 'lazy'

    def is_volatile(self, st, obj, off):
        """may the location change or be read by other threads right now?"""
        if not self.shared(st, obj):
            return False
        if self.stable(obj, off):
            return False
        gs = self.guards(obj, off)
        if gs:
            for l in st.locks:
                if l in gs:
                    return False
        return True

    def stable(self, obj, off):
        if self.written is None:
            return False
        f = self.owner_field(obj, off)[0]
        return f is not None and f not in self.written

    # ---------------------------------------------------------------- renaming
    def define(self, st, v):
        """v is about to denote a new value: rename older uses"""
        k = v[1]
        if k in st.created:
            key = SYM.keys[k]
            chain = [k]
            n = 0
            while True:
                ok = SYM(('old', key, n))
                if ok not in st.created or n >= 3:
                    break
                chain.append(ok)
                n += 1
            if n >= 3:
                self.note('symbol version overflow')
            m = {}
            for i, c in enumerate(chain):
                m[c] = ('s', SYM(('old', key, min(i, 3))))
            for nv in m.values():
                st.created.add(nv[1])
            self.subst(st, m, {})
        st.created.add(k)
        return v

    def define_obj(self, st, o):
        if ('o', o) in st.created:
            key = OBJ.keys[o]
            chain = [o]
            n = 0
            while True:
                oo = OBJ(key[:1] + (key[1], key[2], ('old', n)) + key[3:])
                if ('o', oo) not in st.created or n >= 3:
                    break
                chain.append(oo)
                n += 1
            m = {}
            for i, c in enumerate(chain):
                if c in self.elsize:
                    self.elsize[OBJ(key[:1] + (key[1], key[2], ('old', min(i, 3))) + key[3:])] = self.elsize[c]
                m[c] = OBJ(key[:1] + (key[1], key[2], ('old', min(i, 3))) + key[3:])
                for f, ns in list(self.T(c).items()):
                    for x in list(ns):
                        if x not in self.T(m[c]).get(f, ()):
                            self.annotate(m[c], f, x)
            for nv in m.values():
                st.created.add(('o', nv))
            self.subst(st, {}, m)
        st.created.add(('o', o))
        return o

    def subst(self, st, sm, om):
        """replace symbols and objects everywhere in the state; returns False if contradictory"""
        vc = {}
        oc = {}
        sc = {}

        def so(o):
            """-> (object, added offset)"""
            r = oc.get(o)
            if r is not None:
                return r
            if o in om:
                r = (om[o], 0)
            else:
                k = OBJ.keys[o]
                if k[0] == '*':
                    v = sv(k[1])
                    if v is k[1] or v == k[1]:
                        r = (o, 0)
                    elif v[0] == 'p':
                        r = (v[1], v[2])
                    elif v[0] == 'i':
                        r = (o, 0)
                    else:
                        r = (OBJ(('*', v)), 0)
                elif k[0] in ('el', 'nd'):
                    b, add = so(k[1])
                    i = sv(k[2]) if k[2][0] != '@' else k[2]
                    r = (o, 0) if (b == k[1] and i == k[2]) else (OBJ((k[0], b, i) + k[3:]), 0)
                elif k[0] == 'der':
                    b, add = so(k[1])
                    r = (o, 0) if b == k[1] else (OBJ((k[0], b) + k[2:]), 0)
                else:
                    r = (o, 0)
                if r[0] != o:
                    if o in self.elsize and r[0] not in self.elsize:
                        self.elsize[r[0]] = self.elsize[o]
                    if OBJ.keys[r[0]][0] not in ('A', 'H') and self.T(o) is not self.T(r[0]):
                        for f, ns in list(self.T(o).items()):
                            for n in list(ns):
                                if n not in self.T(r[0]).get(f + r[1], ()):
                                    self.annotate(r[0], f + r[1], n)
                    if o in self.bufowner and r[0] not in self.bufowner:
                        bo, bf = self.bufowner[o]
                        b2, ad = so(bo) if bo != o else (bo, 0)
                        self.bufowner[r[0]] = (b2, bf + ad)
            oc[o] = r
            return r

        def ss(k):
            r = sc.get(k)
            if r is not None:
                return r
            if k in sm:
                r = sm[k]
            else:
                key = SYM.keys[k]
                r = ('s', k)
                nk = key
                if key[0] == 'I':
                    o, add = so(key[1])
                    if o != key[1]:
                        nk = ('I', o, key[2] + add if isinstance(key[2], int) else key[2])
                elif key[0] == 'R':
                    o, add = so(key[3])
                    if o != key[3]:
                        nk = key[:3] + (o, key[4] + add if isinstance(key[4], int) else key[4])
                elif key[0] == 'old':
                    kk = key[1]
                    i = SYM.ids.get(kk)
                    if i is not None and i not in sm:
                        v = ss(i)
                        if v[0] == 's' and v[1] != i:
                            nk = ('old', SYM.keys[v[1]], key[2])
                if nk is not key and nk != key:
                    r = ('s', SYM(nk))
                    if k in st.created:
                        st.created.add(r[1])
            sc[k] = r
            return r

        def sv(v):
            t = v[0]
            if t in ('i', 'u', 'f', 'fp', 'void'):
                return v
            r = vc.get(v)
            if r is not None:
                return r
            if t == 's':
                r = ss(v[1])
            elif t == 'p':
                o, add = so(v[1])
                if o == v[1] and not add:
                    r = v
                else:
                    r = self.mkptr(o, v[2] + add) if isinstance(v[2], int) else ('p', o, v[2])
            elif t == 't':
                a = tuple(sv(x) if isinstance(x, tuple) else x for x in v[2:])
                r = v if a == v[2:] else mkterm(v[1], a)
            elif t == 'n':
                a = sv(v[1])
                r = v if a == v[1] else neg(a)
            elif t == 'agg':
                r = ('agg', tuple(sv(x) for x in v[1]))
            elif t == 'x':
                r = ('x', sv(v[1]), v[2])
            else:
                r = v
            vc[v] = r
            return r

        def sdata(d):
            """monitor / native frame data: any nesting of tuples, values tagged"""
            if isinstance(d, tuple):
                if d and isinstance(d[0], str) and d[0] in ('s', 'p', 't', 'n', 'x') and len(d) >= 2:
                    if d[0] == 's' and isinstance(d[1], int) or d[0] == 'p' and len(d) == 3 \
                            or d[0] in ('t', 'n', 'x'):
                        return sv(d)
                if d and d[0] == '#o':
                    o, add = so(d[1])
                    return ('#o', o, d[2] + add) if len(d) > 2 and isinstance(d[2], int) else ('#o', o) + d[2:]
                return tuple(sdata(x) for x in d)
            if isinstance(d, frozenset):
                return frozenset(sdata(x) for x in d)
            return d

        # memory
        newmem = {}
        for o, cells in st.mem.items():
            o2, add = so(o)
            ch = None
            for f, (v, n) in cells.items():
                if f == 'Z':
                    v2 = tuple(self._srange(x, so) for x in v)
                else:
                    v2 = sv(v)
                if v2 != v or add:
                    ch = True
                    break
            if ch:
                c2 = Cells()
                for f, (v, n) in cells.items():
                    if f == 'Z':
                        v2 = tuple(self._srange(x, so) for x in v)
                        if add:
                            v2 = tuple((x[0] + add, x[1] + add) + x[2:] for x in v2)
                        c2[f] = (v2, n)
                    else:
                        c2[f + add if isinstance(f, int) else f] = (sv(v), n)
                cells = c2
            if o2 in newmem:
                # merging two views of the same object
                m = Cells(newmem[o2])
                for f, c in cells.items():
                    if f not in m or o2 == o:
                        m[f] = c
                newmem[o2] = m
            else:
                newmem[o2] = cells
        st.mem = newmem
        for i, fr in enumerate(st.frames):
            if isinstance(fr, NFrame):
                d = sdata(fr.data)
                if d != fr.data:
                    st.frames[i] = NFrame(fr.handler, d, fr.ctx, fr.fn, fr.onunwind)
                continue
            e = fr.env
            ne = None
            for k, v in e.items():
                v2 = sv(v)
                if v2 is not v and v2 != v:
                    if ne is None:
                        ne = dict(e)
                    ne[k] = v2
            if ne is not None:
                fr = fr.copy()
                fr.env = ne
                st.frames[i] = fr
        st.locks = tuple((lambda q: (q[0], l[1] + q[1]))(so(l[0])) for l in st.locks)
        if st.priv:
            st.priv = frozenset(so(o)[0] for o in st.priv)
        if st.exc:
            st.exc = (sv(st.exc[0]), st.exc[1])
        st.caught = tuple((sv(c[0]), c[1]) for c in st.caught)
        if st.esc:
            st.esc = frozenset(so(o)[0] for o in st.esc)
        st.mon = {k: sdata(v) for k, v in st.mon.items()}
        nf = {}
        for p, t in st.facts.items():
            p2 = sv(p)
            if p2 is p or p2 == p:
                nf[p] = t
                continue
            if p2[0] == 'i':
                if bool(p2[1]) != t:
                    return False
                continue
            while p2[0] == 'n':
                p2 = p2[1]
                t = not t
            if p2[0] == 'i':
                if bool(p2[1]) != t:
                    return False
                continue
            if p2 in nf and nf[p2] != t:
                return False
            nf[p2] = t
        st.facts = nf
        return True

    @staticmethod
    def _srange(x, so):
        if x[2] == 'C':
            o, add = so(x[3])
            return (x[0], x[1], 'C', o, x[4] + add, x[5])
        return x

    # ---------------------------------------------------------------- facts
    def truth(self, st, p):
        """known truth of a boolean value: True/False/None"""
        if p[0] == 'i':
            return bool(p[1] & 1)
        if p[0] == 'n':
            r = self.truth(st, p[1])
            return None if r is None else not r
        if p[0] != 't':
            return None
        f = st.facts
        r = f.get(p)
        if r is not None:
            return r
        op = p[1]
        if op == 'eq':
            a, b = p[2], p[3]
            if f.get(('t', 'ult', a, b)) or f.get(('t', 'ult', b, a)):
                return False
            if f.get(('t', 'slt', a, b)) or f.get(('t', 'slt', b, a)):
                return False
            if f.get(('t', 'ult', a, b)) is False and f.get(('t', 'ult', b, a)) is False:
                return True
            return None
        if op == 'ult':
            a, b = p[2], p[3]
            if f.get(('t', 'ult', b, a)):
                return False
            if f.get(mk_eq(a, b)):
                return False
            # a not< y, y == b+c ...
            xb, cb = split_add(b)
            if cb > 0:
                if f.get(('t', 'ult', a, xb)):
                    return True
            xa, ca = split_add(a)
            if ca > 0:
                if f.get(('t', 'ult', xa, b)) is False:
                    return False
            if ca == 1 and f.get(mk_eq(a, b)) is False and f.get(('t', 'ult', xa, b)):
                return True
            return None
        if op == 'and':
            a, b = self.truth(st, p[2]), self.truth(st, p[3])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if op == 'or':
            a, b = self.truth(st, p[2]), self.truth(st, p[3])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        return None

    def assume(self, st, p, t):
        """add a fact; False if the state becomes infeasible"""
        if p[0] == 'i':
            return bool(p[1] & 1) == t
        if p[0] == 'n':
            return self.assume(st, p[1], not t)
        k = self.truth(st, p)
        if k is not None:
            return k == t
        op = p[1] if p[0] == 't' else None
        if op == 'b':
            x = p[2]
            if x[0] == 's':
                return self.subst(st, {x[1]: ONE if t else ZERO}, {})
            st.facts[p] = t
            return True
        if op == 'eq' and t:
            a, b = p[2], p[3]
            for x, y in ((a, b), (b, a)):
                # an initial value outlives what is compared with it
                if x[0] == 's' and SYM.keys[x[1]][0] == 'I' and y[0] == 't' and y[1] == 'add' and y[2][0] == 's' \
                        and y[3][0] == 'i' and SYM.keys[y[2][1]][0] != 'I' and not self.within(y[2][1], x[1]):
                    return self.subst(st, {y[2][1]: self.arith('add', x, ('i', mask(-y[3][1], 8)), 8)}, {})
            if a[0] == 's' and not self.occurs(a[1], b):
                if b[0] == 's' and (self.within(a[1], b[1]) or
                                    self.rank(a) < self.rank(b) and not self.within(b[1], a[1])):
                    a, b = b, a
                return self.subst(st, {a[1]: b}, {})
            if b[0] == 's' and not self.occurs(b[1], a):
                return self.subst(st, {b[1]: a}, {})
            st.facts[p] = True
            return True
        if op == 'and' and t:
            return self.assume(st, p[2], True) and self.assume(st, p[3], True)
        if op == 'or' and not t:
            return self.assume(st, p[2], False) and self.assume(st, p[3], False)
        if op == 'ult' and t is False:
            # a >= b and b >= a: equal
            if st.facts.get(('t', 'ult', p[3], p[2])) is False:
                st.facts[p] = False
                return self.assume(st, mk_eq(p[2], p[3]), True)
        if op == 'and' and not t:
            a, b = self.truth(st, p[2]), self.truth(st, p[3])
            if a:
                return self.assume(st, p[3], False)
            if b:
                return self.assume(st, p[2], False)
        if op == 'or' and t:
            a, b = self.truth(st, p[2]), self.truth(st, p[3])
            if a is False:
                return self.assume(st, p[3], True)
            if b is False:
                return self.assume(st, p[2], True)
        st.facts[p] = t
        if 'fact' in self.handlers:
            self.emit('fact', st, p, t)
        return True

    def rank(self, v):
        k = SYM.keys[v[1]]
        if k[0] != 'I':
            return (2, v[1])
        return (0 if all(SYM.keys[x][0] == 'I' for x in self.deep(v[1])) else 1, v[1])

    def within(self, a, b):
        """is symbol b named in terms of symbol a?"""
        return a in self.deep(b)

    def deep(self, k):
        """the symbols a symbol's name is built from"""
        r = self.deepsyms.get(k)
        if r is None:
            r = set()
            todo = [('s', k)]
            while todo:
                x = todo.pop()
                if isinstance(x, int):
                    x = OBJ.keys[x]
                    if x[0] == '*':
                        todo.append(x[1])
                    elif x[0] in ('el', 'nd'):
                        todo.append(x[1])
                        todo.append(x[2])
                    elif x[0] == 'der':
                        todo.append(x[1])
                    continue
                if x[0] == 's':
                    if x[1] in r:
                        continue
                    r.add(x[1])
                    key = SYM.keys[x[1]]
                    if key[0] == 'I':
                        todo.append(key[1])
                    elif key[0] == 'R':
                        todo.append(key[3])
                elif x[0] == 't':
                    todo.extend(y for y in x[2:] if isinstance(y, tuple))
                elif x[0] == 'n':
                    todo.append(x[1])
                elif x[0] == 'p':
                    todo.append(x[1])
            r.discard(k)
            r = self.deepsyms[k] = frozenset(r)
        return r

    def occurs(self, k, v):
        if v[0] == 's':
            return v[1] == k
        if v[0] == 't':
            return any(self.occurs(k, x) for x in v[2:] if isinstance(x, tuple))
        if v[0] == 'n':
            return self.occurs(k, v[1])
        return False

    def entails(self, st, p, t):
        return self.truth(st, p) is t

    # ---------------------------------------------------------------- memory
    @staticmethod
    def mkptr(o, off):
        k = OBJ.keys[o]
        if k[0] == '*' and off == 0:
            return k[1]
        return ('p', o, off)

    def addr(self, v):
        """(obj, off) of a pointer value or None"""
        t = v[0]
        if t == 'p':
            return v[1], v[2]
        if t == 's' or t == 't':
            return OBJ(('*', v)), 0
        return None

    def gep(self, v, off, st=None):
        if off == 0:
            return v
        t = v[0]
        if t == 'p':
            k = OBJ.keys[v[1]]
            if k[0] == 'el':
                n = v[2] + off
                sz = self.elsize.get(k[1])
                if sz and not 0 <= n < sz:
                    if k[2][0] == '@':
                        return UNDEF
                    i = self.arith('add', k[2], ('i', mask(n // sz, 8)), 8)
                    return ('p', self.elem(k[1], i, v[1]), n % sz) if i else UNDEF
                return ('p', v[1], n)
            return self.mkptr(v[1], v[2] + off)
        if t == 's' or t == 't':
            return ('p', OBJ(('*', v)), off)
        if t == 'i':
            return ('i', mask(v[1] + off, 8))
        return UNDEF

    def elem(self, buf, idx, like=None):
        """element object of a sequence"""
        o = OBJ(('el', buf, idx))
        return o

    def cells(self, st, o):
        return st.mem.get(o, EMPTY)

    def raw_write(self, st, o, off, v, size):
        c = st.mem.get(o)
        if c is None:
            st.mem[o] = Cells({off: (v, size)})
            return
        n = Cells(c)
        if isinstance(off, int):
            old = n.get(off)
            if old is None or old[1] != size:
                for f in [f for f, (x, s) in n.items()
                          if isinstance(f, int) and f < off + size and off < f + s and f != off]:
                    del n[f]
        n[off] = (v, size)
        st.mem[o] = n

    def raw_clear(self, st, o, off, size):
        """forget cells in a byte range"""
        c = st.mem.get(o)
        if c is None:
            return
        n = Cells((f, x) for f, x in c.items()
                  if not (isinstance(f, int) and off <= f < off + size))
        if 'Z' in n:
            rs = []
            for r in n['Z'][0]:
                if r[1] <= off or off + size <= r[0]:
                    rs.append(r)
                else:
                    if r[0] < off:
                        rs.append((r[0], off) + r[2:])
                    if off + size < r[1]:
                        rs.append(self._cut(r, off + size))
            if rs:
                n['Z'] = (tuple(rs), 0)
            else:
                del n['Z']
        st.mem[o] = n

    @staticmethod
    def _cut(r, lo):
        if r[2] == 'C':
            return (lo, r[1], 'C', r[3], r[4] + lo - r[0], r[5])
        return (lo,) + r[1:]

    def add_range(self, st, o, lo, hi, *what):
        self.raw_clear(st, o, lo, hi - lo)
        c = Cells(st.mem.get(o, EMPTY))
        c['Z'] = (c.get('Z', ((), 0))[0] + ((lo, hi) + what,), 0)
        st.mem[o] = c

    def const_global(self, obj, off, size):
        g = self.prog.globals.get(OBJ.keys[obj][1])
        if not g:
            return None
        for o, s, op in g.get('init', ()):
            if o == off:
                return self.val(None, op)
        return None

    def read(self, st, o, off, size, fr=None, ins=None, atomic=False):
        if self.load_hook:
            v = self.load_hook(st, o, off)
            if v is not None:
                return v
        c = st.mem.get(o, EMPTY)
        k = OBJ.keys[o]
        if k[0] == 'G' and self.prog.globals.get(k[1], {}).get('const'):
            v = self.const_global(o, off, size)
            return v if v is not None else sym(('I', o, off))
        if self.is_volatile(st, o, off):
            v = self.define(st, sym(('R', fr.ctx if fr else 0, ins[1] if ins else 0, o, off)))
            return self.shape(st, o, off, v)
        x = c.get(off)
        if x is not None:
            v, s = x
            if s == size or size == 0:
                return v
            if v[0] == 'i':
                return ('i', mask(v[1], size))
            if s > size:
                return ('t', 'trunc', v, ('i', size)) if v[0] != 'u' else UNDEF
            return v
        for r in c.get('Z', ((),))[0]:
            if r[0] <= off < r[1]:
                if r[2] == 0:
                    v = ZERO
                elif r[2] == 'C':
                    so, sf = r[3], r[4] + off - r[0]
                    if r[5] is not None:
                        v = sym(('R', r[5][0], r[5][1], so, sf))
                        st.created.add(v[1])
                        v = self.shape(st, so, sf, v)
                    elif self.lazy(so, st):
                        v = self.shape(st, so, sf, sym(('I', so, sf)))
                    else:
                        v = UNDEF
                else:
                    v = sym(('X', r[3], r[4], off - r[0]))
                    st.created.add(v[1])
                self.raw_write(st, o, off, v, size)
                return v
        if isinstance(off, int):
            for f, (v, s) in c.items():
                if isinstance(f, int) and f < off < f + s and v[0] == 'i':
                    return ('i', mask(v[1] >> (8 * (off - f)), size))
        if k[0] == 'nd' and off == k[3] and k[2][0] in ('i', 's', 't', 'p'):
            return k[2]
        if self.lazy(o, st):
            if self.shared(st, o) and not self.stable(o, off):
                v = self.define(st, sym(('R', fr.ctx if fr else 0, ins[1] if ins else 0, o, off)))
            else:
                v = sym(('I', o, off))
            v = self.shape(st, o, off, v)
            self.raw_write(st, o, off, v, size)
            return v
        if k[0] == 'H' and o in st.esc:
            v = self.define(st, sym(('R', fr.ctx if fr else 0, ins[1] if ins else 0, o, off)))
            v = self.shape(st, o, off, v)
            self.raw_write(st, o, off, v, size)
            return v
        return UNDEF

    def shape(self, st, o, off, v):
        """unknown contents of library types: the control block pointer of a shared pointer
        is a function of the pointer; a vector points to the elements of one buffer"""
        if isinstance(off, int) and v[0] == 's' and self.T(o):
            for d in (0, 8, 16):
                for n in self.T(o).get(off - d, ()):
                    if '::_Vector_impl' in n:
                        return self.shape_vector(st, o, off - d, d, v, n)
        if isinstance(off, int) and off >= 8:
            for n in self.T(o).get(off - 8, ()):
                b = n.split('.', 1)[-1]
                if b.startswith('std::__shared_ptr') or b.startswith('std::shared_ptr') or \
                        b.startswith('std::__weak_ptr') or b.startswith('std::weak_ptr'):
                    if b.startswith('std::__shared_ptr_access'):
                        continue
                    c = st.mem.get(o, EMPTY).get(off - 8)
                    if c is not None and not self.is_volatile(st, o, off - 8):
                        p = c[0]
                    else:
                        key = SYM.keys[v[1]]
                        if key[0] == 'R':
                            if self.is_volatile(st, o, off - 8):
                                return v
                            p = self.define(st, sym(key[:4] + (off - 8,)))
                        else:
                            p = sym(('I', o, off - 8))
                        if not self.is_volatile(st, o, off - 8):
                            self.raw_write(st, o, off - 8, p, 8)
                    if p[0] in ('s', 't'):
                        return ('t', 'pi', p)
                    if p == ZERO:
                        return ZERO
                    return v
        return v

    def shape_vector(self, st, o, base, d, v, tname):
        key = SYM.keys[v[1]]
        vol = self.is_volatile(st, o, base)
        if d:
            nk = key[:-1] + (base,)
            v = sym(nk)
            if key[0] == 'R' and not vol:
                self.define(st, v)
        buf = OBJ(('*', v))
        self.bufowner[buf] = (o, base)
        if buf not in self.elsize:
            sz = self.prog.sizeof(targs(tname)[0])
            if sz is None:
                raise CheckError('unknown element size in %s' % tname)
            self.elsize[buf] = sz
        s = self.cells(st, buf).get('S')
        if s is None:
            s = (sym(('I', buf, 'S')), 8)
            self.raw_write(st, buf, 'S', s[0], 8)
        vals = (('p', self.elem(buf, ZERO), 0), ('p', self.elem(buf, s[0]), 0), ('p', self.elem(buf, ('@', 'cap')), 0))
        if not vol:
            for i in range(3):
                self.raw_write(st, o, base + 8 * i, vals[i], 8)
        return vals[d // 8]

    def sequence(self, st, o, base, fr, ins):
        """(buffer, size) of the vector at (o, base); buffer None if it has none"""
        a = self.read(st, o, base, 8, fr, ins)
        b = self.read(st, o, base + 8, 8, fr, ins)
        if a[0] == 'p' and OBJ.keys[a[1]][0] == 'el' and b[0] == 'p' and OBJ.keys[b[1]][0] == 'el':
            return OBJ.keys[a[1]][1], OBJ.keys[b[1]][2]
        return None, ZERO

    def map_addr(self, st, buf):
        return None

    def owner_moved(self, st, o, off, v):
        """a container's buffer pointer is stored: the buffer belongs to the new owner"""
        if v[0] != 'p':
            return
        k = OBJ.keys[v[1]]
        buf = k[1] if k[0] == 'el' else v[1]
        if self.shared(st, o):
            st.priv = st.priv - {buf}
            self.bufowner[buf] = (o, off)
        elif OBJ.keys[buf][0] != 'A':
            if self.shared(st, buf):
                # keep what is known, nobody else can reach it any more
                st.priv = st.priv | {buf}

    def write(self, st, o, off, v, size, atomic=False):
        if v[0] == 'p' and isinstance(off, int):
            for n in self.T(o).get(off, ()):
                if '::_Vector_impl' in n:
                    self.owner_moved(st, o, off, v)
                    break
        self.split_pair(st, o, off)
        if isinstance(off, int) and off >= 8 and 'vec' in self.handlers:
            for n in self.T(o).get(off - 8, ()):
                if '::_Vector_impl' in n:
                    old = self.seq_end(st.mem.get(o, EMPTY).get(off, (UNDEF,))[0])
                    self.emit('vec', st, o, off - 8, old, self.seq_end(v))
                    break
        if self.shared(st, o):
            f = self.owner_field(o, off)[0]
            if f:
                self.seen_written.add(f)
            self.escape(st, v)
            if self.is_volatile(st, o, off):
                return
        self.raw_write(st, o, off, v, size)

    def split_pair(self, st, o, off):
        """before the pointer of a shared pointer changes, its control block is the one of the old pointer"""
        if not isinstance(off, int) or OBJ.keys[o][0] == 'A':
            return
        for n in self.T(o).get(off, ()):
            b = n.split('.', 1)[-1]
            if b.startswith(('std::__shared_ptr', 'std::shared_ptr', 'std::__weak_ptr', 'std::weak_ptr')) and \
                    not b.startswith('std::__shared_ptr_access'):
                if off + 8 not in st.mem.get(o, EMPTY) and self.lazy(o, st) and not self.is_volatile(st, o, off):
                    fr = next((x for x in reversed(st.frames) if not isinstance(x, NFrame)), None)
                    self.read(st, o, off + 8, 8, fr, fr.ins() if fr else None)
                return

    @staticmethod
    def seq_end(v):
        """(buffer, size) of a sequence from its end pointer; None if unknown"""
        if v[0] == 'p' and OBJ.keys[v[1]][0] == 'el':
            return OBJ.keys[v[1]][1], OBJ.keys[v[1]][2]
        if v == ZERO:
            return None, ZERO
        return None

    def escape(self, st, v):
        """v becomes reachable for other threads"""
        if 'escape' in self.handlers and v[0] == 'p':
            self.emit('escape', st, v)
        todo = [v]
        while todo:
            v = todo.pop()
            if v[0] == 'p':
                o = v[1]
                while OBJ.keys[o][0] in ('el', 'nd', 'der'):
                    o = OBJ.keys[o][1]
                if OBJ.keys[o][0] == 'H' and o not in st.esc:
                    st.esc = st.esc | {o}
                    self.escape_contents(st, o, todo)
            elif v[0] == 'agg':
                todo.extend(v[1])

    def escape_contents(self, st, o, todo):
        for f, (x, n) in self.cells(st, o).items():
            if f != 'Z':
                todo.append(x)
        for e in list(st.mem):
            k = OBJ.keys[e]
            if k[0] in ('el', 'nd', 'der') and base_obj(e) == o:
                for f, (x, n) in st.mem[e].items():
                    if f != 'Z':
                        todo.append(x)
        # what others may change is forgotten
        drop = [f for f in self.cells(st, o) if isinstance(f, int) and self.is_volatile(st, o, f)]
        if drop:
            c = Cells(st.mem[o])
            for f in drop:
                del c[f]
            st.mem[o] = c

    def havoc_shared(self, st, lock=None):
        """forget shared memory: all of it that is not protected, or what `lock` protects"""
        for o in list(st.mem):
            if not self.shared(st, o):
                continue
            c = st.mem[o]
            drop = []
            for f in c:
                if f == 'Z':
                    continue
                if self.stable(o, f if isinstance(f, int) else 0):
                    continue
                g = self.guards(o, f if isinstance(f, int) else 0)
                if lock is None:
                    if not any(l in g for l in st.locks):
                        drop.append(f)
                elif lock in g or not g:
                    drop.append(f)
            if drop:
                if len(drop) == len(c):
                    del st.mem[o]
                else:
                    n = Cells(c)
                    for f in drop:
                        del n[f]
                    st.mem[o] = n

    # ---------------------------------------------------------------- operands
    def val(self, fr, o):
        t = o[0]
        if t == 'v':
            return fr.env.get(o[1], UNDEF)
        if t == 'i':
            return ('i', o[1])
        if t == 'f':
            return ('f', o[1])
        if t == 'g':
            g = self.prog.globals.get(o[1])
            return ('p', OBJ(('T' if g and g['tls'] else 'G', o[1])), 0)
        if t == 'gep':
            b = self.val(fr, o[1])
            for off, n in o[4]:
                a = self.addr(b)
                if a:
                    self.annotate(a[0], a[1] + off, n)
            return self.gep(b, o[2])
        if t == 'cast':
            return self.val(fr, o[1])
        if t == 'zero':
            return ('zero',)
        if t == 'agg':
            return ('agg', tuple(self.val(fr, x) for x in o[1]))
        if t == 'fp':
            return ('fp', o[1])
        return UNDEF

    # ---------------------------------------------------------------- driving
    def explore(self, st, name):
        self.root = name
        self.stats['entries'] += 1
        self.visited = set()
        self.work = [st]
        n0 = self.stats['states']
        while self.work:
            s = self.work.pop()
            self.stats['states'] += 1
            if self.stats['states'] - n0 > self.MAX_STATES:
                raise CheckError('state limit exceeded while analysing %s' % name)
            self.run(s)

    def run(self, st):
        ops = self.ops
        n = 0
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.bb][fr.ip]
            n += 1
            if n > 300000:
                raise CheckError('no progress in %s: %s' % (self.root, ' < '.join(reversed(self.stack(st)[-6:]))))
            h = ops.get(ins[0])
            if h is None:
                h = self.op_default
            if not h(st, fr, ins):
                break
        self.stats['insts'] += n

    def fork(self, st):
        self.stats['forks'] += 1
        return st.copy()

    def push(self, st):
        self.work.append(st)

    # ---------------------------------------------------------------- control flow
    def goto(self, st, fr, bb):
        fn = fr.fn
        src = fr.bb
        blk = fn.blocks[bb]
        i = 0
        if blk[0][0] == 'phi':
            new = {}
            while blk[i][0] == 'phi':
                ins = blk[i]
                for pb, o in ins[4]:
                    if pb == src:
                        new[ins[1]] = self.val(fr, o)
                        break
                i += 1
            fr.env.update(new)
        else:
            new = ()
        fr.bb = bb
        fr.ip = i
        if fn.preds[bb] > 1:
            live = fn.live[bb]
            e = fr.env
            fr.env = {k: e[k] for k in e if k in live or k in new}
            if fn.header[bb]:
                self.widen(st, fr, bb)
            return self.join(st)
        return True

    def join(self, st):
        self.gc(st)
        k = st.key()
        fr = st.frames[-1]
        if k in self.visited:
            self.stats['merged'] += 1
            if 'cycle' in self.handlers:
                self.cycle(st, k)
            return False
        self.visited.add(k)
        if 'cycle' in self.handlers:
            head = bool(fr.fn.header[fr.bb])
            st.past = (k, len(st.frames), fr.ctx, fr.bb, head, st.past)
        return True

    def cycle(self, st, k):
        """the state was seen before: if on this very path, report the loop of the outermost activation on the way"""
        head = None
        p = st.past
        least = len(st.frames)
        while p:
            least = min(least, p[1])
            if p[4] and (head is None or p[1] < head[1]):
                head = p
            if p[0] == k:
                if head and head[1] <= len(st.frames):
                    self.emit('cycle', st, head[1] - 1, head[3])
                return
            p = p[5]

    def widen(self, st, fr, bb):
        """cells and values that keep changing in a loop become unknown"""
        loops = dict(fr.loops) if fr.loops else {}
        snap = loops.get(bb)
        cur = (dict(fr.env), dict(st.mem))
        n = 0 if snap is None else snap[0]
        if snap is not None and n >= self.WIDEN:
            penv, pmem = snap[1]
            for k in list(fr.env):
                v = fr.env[k]
                pv = penv.get(k)
                if pv is not None and pv != v and self.numeric(v, pv):
                    nv = self.wide(st, fr, ('e', k), v, pv)
                    fr = st.frames[-1]
                    fr.env[k] = nv
            for o in list(st.mem):
                c = st.mem.get(o)
                pc = pmem.get(o)
                if c is None or pc is None or pc is c:
                    continue
                for f in list(c):
                    if f == 'Z' or f not in pc or f not in st.mem.get(o, ()):
                        continue
                    v, s = st.mem[o][f]
                    pv = pc[f][0]
                    if pv != v and self.numeric(v, pv):
                        nv = self.wide(st, fr, ('m', bb, o, f), v, pv)
                        fr = st.frames[-1]
                        self.raw_write(st, o, f, nv, s)
            self.summarise(st, fr, bb, pmem)
            fr = st.frames[-1]
            cur = (dict(fr.env), dict(st.mem))
        loops[bb] = (min(n + 1, 4), cur)
        fr.loops = loops

    def summarise(self, st, fr, bb, pmem):
        """containers of this activation that keep growing in a loop lose their contents"""
        grown = set()
        for o, c in st.mem.items():
            k = OBJ.keys[o]
            if k[0] in ('el', 'nd'):
                b = k[1]
                if OBJ.keys[b][0] == 'H' and (o not in pmem or b not in pmem) and b in st.mem:
                    grown.add(b)
        for b in sorted(grown):
            for o in [o for o in st.mem if OBJ.keys[o][0] in ('el', 'nd') and OBJ.keys[o][1] == b]:
                del st.mem[o]
            c = Cells(st.mem[b])
            c.pop('keys', None)
            c['lossy'] = (ONE, 1)
            if 'S' in c:
                c['S'] = (self.define(st, sym(('W', fr.ctx, bb, ('n', b)))), 8)
                fr = st.frames[-1]
            st.mem[b] = c
            st.facts = {p: t for p, t in st.facts.items() if not (p[1] == 'has' and p[2] == ('p', b, 0))}

        # objects of this activation: fields that keep changing become unknown
        for o, c in list(st.mem.items()):
            k = OBJ.keys[o]
            pc = pmem.get(o)
            if k[0] != 'H' or pc is None or pc is c or 'S' in c or o in grown:
                continue
            gone = [f for f, (v, n) in c.items() if isinstance(f, int) and f in pc and pc[f][0] != v
                    and not (v[0] == 's' and SYM.keys[v[1]][0] == 'W')]
            if gone:
                c = Cells(c)
                for f in gone:
                    del c[f]
                    i = SYM.ids.get(('I', o, f))
                    if i is not None:
                        st.facts = {p: t for p, t in st.facts.items() if not self.occurs(i, p)}
                c['lossy'] = (ONE, 1)
                st.mem[o] = c

    @staticmethod
    def numeric(v, pv):
        if v[0] == 'p' and pv[0] == 'p':
            a, b = OBJ.keys[v[1]], OBJ.keys[pv[1]]
            if v[1] == pv[1] and a[0] in ('*', 'arg'):
                return True
            return a[0] == 'el' and b[0] == 'el' and a[1] == b[1] and v[2] == pv[2] and a[2][0] != '@'
        return v[0] == 'i' and pv[0] in ('i', 't', 's') or v[0] == 't' and v[1] in ('add', 'sub', 'mul')

    def wide(self, st, fr, tag, v, pv):
        if v[0] == 'p':
            k = OBJ.keys[v[1]]
            self.emit('prewiden', st, v)
            w = self.define(st, sym(('W', fr.ctx, fr.bb, tag)))
            if k[0] != 'el':
                self.emit('postwiden', st, w)
                return w
            o = OBJ(('el', k[1], w))
            self.emit('postwiden', st, ('p', o, v[2]))
            return ('p', o, v[2])
        self.emit('prewiden', st, v)
        w = self.define(st, sym(('W', fr.ctx, fr.bb, tag)))
        self.emit('postwiden', st, w)
        return w

    def ret(self, st, v):
        """return from the top frame"""
        fr = st.frames.pop()
        self.kill(st, fr)
        if fr.fn.base[0:1] == '~' and fr.args and fr.args[0][0] == 'p':
            # nothing is left of a destroyed local object
            o, off = fr.args[0][1:]
            if OBJ.keys[o][0] == 'A' and isinstance(off, int):
                n = self.prog.sizeof(fr.fn.ctx)
                if n:
                    self.raw_clear(st, o, off, n)
        if not st.frames:
            st.frames.append(fr)
            self.emit('end', st, 'return', v)
            st.frames.pop()
            self.stats['paths'] += 1
            return False
        return self.resume(st, v)

    def resume(self, st, v):
        """deliver the value of a finished call to the frame on top"""
        fr = st.frames[-1]
        if isinstance(fr, NFrame):
            st.frames.pop()
            return self.outcome(st, fr.handler(self, st, fr, v))
        fr = fr.copy()
        st.frames[-1] = fr
        ins = fr.ins()
        if v is not VOID and v is not None and ins[3]:
            fr.env[ins[1]] = v
        if ins[0] == 'invoke':
            return self.goto(st, fr, ins[7])
        fr.ip += 1
        return True

    def outcome(self, st, r):
        """apply the result of a model in the context of the frame on top"""
        while True:
            if r is CALLED:
                return True
            if r is DEAD:
                self.stats['paths'] += 1
                return False
            if r is THROW:
                return self.unwind(st)
            if isinstance(r, Fork):
                if not r.alts:
                    return False
                for s, o in r.alts[:-1]:
                    self.stats['forks'] += 1
                    if self.outcome(s, o):
                        self.work.append(s)
                s, o = r.alts[-1]
                if s is st:
                    r = o
                    continue
                if self.outcome(s, o):
                    self.work.append(s)
                return False
            return self.resume(st, r)

    def kill(self, st, fr):
        if fr.allocas:
            mem = st.mem
            for o in fr.allocas:
                mem.pop(o, None)
            dead = set(fr.allocas)
            for o in list(mem):
                k = OBJ.keys[o]
                if k[0] in ('el', 'nd', 'der') and base_obj(o) in dead:
                    del mem[o]

    def unwind(self, st):
        """propagate st.exc; the top frame is at the raising call"""
        while st.frames:
            fr = st.frames[-1]
            if isinstance(fr, NFrame):
                st.frames.pop()
                if fr.onunwind:
                    fr.onunwind(self, st, fr)
                continue
            ins = fr.ins()
            if ins[0] == 'invoke' and not ins[6]:
                fr = fr.copy()
                st.frames[-1] = fr
                return self.goto(st, fr, ins[8])
            if ins[0] in ('call', 'invoke') and ins[6] and not self.is_throw_call(ins):
                self.emit('terminate', st)
                self.tr(st, 'exception at a call that must not throw: terminate')
                self.emit('end', st, 'terminate', None)
                self.stats['paths'] += 1
                return False
            if fr.fn.nounwind:
                self.emit('terminate', st)
                self.emit('end', st, 'terminate', None)
                self.stats['paths'] += 1
                return False
            if len(st.frames) == 1:
                self.emit('end', st, 'unwind', st.exc)
                self.stats['paths'] += 1
                return False
            st.frames.pop()
            self.kill(st, fr)
        return False

    def is_throw_call(self, ins):
        return False

    def call(self, st, fn, args, ctx=None):
        """push a frame for an interpreted function"""
        top = st.frames[-1] if st.frames else None
        if ctx is None:
            if isinstance(top, NFrame):
                ctx = CTX((top.ctx, fn.name, 'n'))
            elif top is None:
                ctx = CTX((0, fn.name))
            else:
                ctx = CTX((top.ctx, fn.name, top.ins()[1]))
                self.trim(top)
        fn.prepare()
        if fn.name not in self.fns_seen:
            self.fns_seen.add(fn.name)
        fr = Frame(fn, ctx)
        fr.args = tuple(args)
        for i, a in enumerate(args):
            fr.env[i] = a
        st.frames.append(fr)
        for i, n in fn.byval:
            # the callee works on its own copy
            if i < len(args):
                o = OBJ(('A', ctx, ('byval', i)))
                st.mem.pop(o, None)
                fr.allocas = fr.allocas + (o,)
                src = self.addr(args[i])
                if src:
                    self.copy_mem(st, (o, 0), src, n, fr, fr.ins())
                fr.env[i] = ('p', o, 0)
        if 'enter' in self.handlers:
            self.emit('enter', st, fn, args)

    def trim(self, fr):
        k = (fr.bb, fr.ip)
        cl = fr.fn.calllive.get(k)
        if cl is None:
            cl = fr.fn.call_live(fr.bb, fr.ip)
            fr.fn.calllive[k] = cl
        if len(fr.env) > len(cl):
            e = fr.env
            fr.env = {x: e[x] for x in e if x in cl}

    # ---------------------------------------------------------------- garbage collection
    def gc(self, st):
        """drop unreachable fresh memory and facts about unreachable symbols"""
        mem = st.mem
        seen = set()
        syms = set()
        todo = []
        vseen = set()

        def visit(v):
            t = v[0]
            if t == 's':
                if v[1] not in syms:
                    syms.add(v[1])
                    o = OBJ.ids.get(('*', v))
                    if o is not None:
                        mark(o)
            elif t == 'p':
                mark(v[1])
            elif t == 't':
                if v in vseen:
                    return
                vseen.add(v)
                for x in v[2:]:
                    if isinstance(x, tuple):
                        visit(x)
                o = OBJ.ids.get(('*', v))
                if o is not None:
                    mark(o)
            elif t == 'n' or t == 'x':
                visit(v[1])
            elif t == 'agg':
                for x in v[1]:
                    visit(x)

        def mark(o):
            if o in seen:
                return
            seen.add(o)
            k = OBJ.keys[o]
            if k[0] in ('el', 'nd', 'der'):
                mark(k[1])
                if k[0] != 'der' and k[2][0] != '@':
                    visit(k[2])
            elif k[0] == '*':
                visit(k[1])
            c = mem.get(o)
            if c:
                for f, (v, s) in c.items():
                    if f == 'Z':
                        for r in v:
                            if r[2] == 'C':
                                mark(r[3])
                    else:
                        visit(v)
            if o in kids:
                for e in kids[o]:
                    ke = OBJ.keys[e]
                    if ke[0] == 'der':
                        continue    # shuffled contents live on only if something points to them
                    if ke[2][0] == 'i' or ke[2][0] == '@':
                        mark(e)
                    else:
                        maybe.append(e)

        def vdata(d):
            if isinstance(d, tuple):
                if d and isinstance(d[0], str):
                    if d[0] == 's' and len(d) == 2 and isinstance(d[1], int):
                        visit(d)
                        return
                    if d[0] == 'p' and len(d) == 3:
                        visit(d)
                        return
                    if d[0] in ('t', 'n', 'x'):
                        visit(d)
                        return
                    if d[0] == '#o':
                        mark(d[1])
                        return
                for x in d:
                    vdata(x)
            elif isinstance(d, frozenset):
                for x in d:
                    vdata(x)

        maybe = []
        kids = {}
        for o in mem:
            k = OBJ.keys[o]
            if k[0] in ('el', 'nd', 'der'):
                kids.setdefault(k[1], []).append(o)
        for fr in st.frames:
            if isinstance(fr, NFrame):
                vdata(fr.data)
            else:
                for v in fr.env.values():
                    visit(v)
                for o in fr.allocas:
                    mark(o)
        for o in mem:
            k = OBJ.keys[o][0]
            if k in ('G', 'T', 'arg'):
                mark(o)
        if st.exc:
            visit(st.exc[0])
        for c in st.caught:
            visit(c[0])
        for l in st.locks:
            mark(l[0])
        vdata(tuple(st.mon.values()))
        # elements at an index nobody refers to any more say nothing
        go = True
        while go:
            go = False
            for e in list(maybe):
                if e not in seen and self.val_live(OBJ.keys[e][2], syms, seen):
                    mark(e)
                    go = True
        for e in maybe:
            if e not in seen:
                b = OBJ.keys[e][1]
                if OBJ.keys[base_obj(b)][0] == 'H' and 'lossy' not in mem.get(b, EMPTY):
                    self.raw_write(st, b, 'lossy', ONE, 1)
        dead = [o for o in mem if o not in seen]
        for o in dead:
            del mem[o]
        if st.esc:
            st.esc = frozenset(o for o in st.esc if o in seen)
        if st.priv:
            st.priv = frozenset(o for o in st.priv if o in seen)
        if st.facts:
            fs = {}
            for p, t in st.facts.items():
                if self.fact_live(p, syms, seen):
                    fs[p] = t
            st.facts = fs
        st.created = set(c for c in st.created if (c[1] in seen if isinstance(c, tuple) else c in syms))

    def fact_live(self, p, syms, seen):
        for v in p[2:]:
            if isinstance(v, tuple) and not self.val_live(v, syms, seen):
                return False
        return True

    def val_live(self, v, syms, seen):
        t = v[0]
        if t == 's':
            return v[1] in syms
        if t == 'p':
            return v[1] in seen
        if t == 't':
            return all(self.val_live(x, syms, seen) for x in v[2:] if isinstance(x, tuple))
        if t == 'n':
            return self.val_live(v[1], syms, seen)
        return True

    # ---------------------------------------------------------------- instructions
    def op_alloca(self, st, fr, ins):
        o = OBJ(('A', fr.ctx, ins[1]))
        st.mem.pop(o, None)
        fr.allocas = fr.allocas + (o,)
        if ins[5] in self.prog.structs:
            self.annotate(o, 0, ins[5])
        fr.env[ins[1]] = ('p', o, 0)
        fr.ip += 1
        return True

    def op_load(self, st, fr, ins):
        p = self.val(fr, ins[4])
        a = self.addr(p)
        if a is None:
            return self.bad_access(st, fr, ins, p)
        o, off = a
        kd = OBJ.keys[o][0]
        if kd != 'A' and self.access_event(st, o, off, ins[3], False, ins[5], ins) is False:
            return False
        v = self.read(st, o, off, ins[3], fr, ins, ins[5])
        fr = st.frames[-1]
        fr.env[ins[1]] = v
        fr.ip += 1
        if kd != 'A' and 'loaded' in self.handlers:
            o, off = self.addr(self.val(fr, ins[4])) or (o, off)
            self.emit('loaded', st, o, off, v)
        return True

    def access_event(self, st, o, off, size, write, atomic, ins, val=None):
        if self.freed(st, o):
            self.emit('uaf', st, o, off, write)
        hs = self.handlers.get('access')
        if hs:
            for h in hs:
                h(st, o, off, size, write, atomic, val)

    def freed(self, st, o):
        c = st.mem.get(base_obj(o))
        return c is not None and 'freed' in c

    def bad_access(self, st, fr, ins, p):
        if p[0] == 'u':
            self.note('access through an unknown pointer in %s' % fr.fn.short())
            self.emit('wild', st, p)
            self.stats['paths'] += 1
            return False
        # null or constant address: assumed not to happen
        self.emit('nullderef', st, p)
        self.note('null dereference path cut in %s' % fr.fn.short())
        self.stats['paths'] += 1
        return False

    def op_store(self, st, fr, ins):
        v = self.val(fr, ins[4])
        p = self.val(fr, ins[5])
        a = self.addr(p)
        if a is None:
            return self.bad_access(st, fr, ins, p)
        o, off = a
        if OBJ.keys[o][0] != 'A':
            self.access_event(st, o, off, ins[6], True, ins[7], ins, v)
        self.write(st, o, off, v, ins[6], ins[7])
        st.frames[-1].ip += 1
        return True

    def op_getelementptr(self, st, fr, ins):
        b = self.val(fr, ins[4])
        off = ins[5]
        v = self.gep(b, off)
        if ins[6]:
            for io, sc in ins[6]:
                iv = self.val(fr, io)
                if iv[0] == 'i':
                    v = self.gep(v, signed(iv[1], 8) * sc)
                else:
                    v = self.index(st, fr, ins, v, iv, sc)
        if ins[7]:
            a = self.addr(b)
            if a is not None and isinstance(a[1], int):
                for f, n in ins[7]:
                    t = self.T(a[0])
                    if n not in t.get(a[1] + f, ()):
                        self.annotate(a[0], a[1] + f, n)
        fr.env[ins[1]] = v
        fr.ip += 1
        return True

    def index(self, st, fr, ins, p, iv, sc):
        """pointer to an element at an unknown index"""
        a = self.addr(p)
        if a is None:
            return UNDEF
        k = OBJ.keys[a[0]]
        if k[0] == 'el':
            sz = self.elsize.get(k[1])
            if k[2][0] == '@':
                return UNDEF
            if sz is not None and sz != sc:
                if iv[0] == 't' and iv[1] == 'mul' and iv[3][0] == 'i' and iv[3][1] * sc == sz:
                    iv = iv[2]
                else:
                    self.note('odd element stride in %s' % fr.fn.short())
            i = self.arith('add', k[2], iv, 8)
            if i is None:
                i = sym(('X', fr.ctx, ins[1], 'i'))
            return ('p', self.elem(k[1], i, a[0]), a[1])
        self.elsize.setdefault(a[0], sc)
        return ('p', self.elem(a[0], iv), a[1])

    def op_br(self, st, fr, ins):
        if ins[4] is None:
            return self.goto(st, fr, ins[5])
        c = to_bool(self.val(fr, ins[4]))
        return self.branch(st, fr, ins, c, ins[5], ins[6])

    def branch(self, st, fr, ins, c, bt, bf):
        if c[0] == 't' and c[2][0] == 'u' and c[1] == 'b':
            c = ('t', 'unk', sym(('U', fr.ctx, ins[1])))
            t = None
        else:
            t = self.truth(st, c)
        if t is None:
            if bt == bf:
                return self.goto(st, fr, bt)
            s2 = self.fork(st)
            repo = self.prog.loc_repo(ins)
            ok2 = self.assume(s2, c, False)
            ok1 = self.assume(st, c, True)
            if ok2:
                if repo:
                    self.tr(s2, 'branch: false')
                f2 = s2.frames[-1]
                if self.goto(s2, f2, bf):
                    if ok1:
                        self.work.append(s2)
                    else:
                        self.work.append(s2)
            if not ok1:
                return False
            if repo:
                self.tr(st, 'branch: true')
            return self.goto(st, st.frames[-1], bt)
        return self.goto(st, fr, bt if t else bf)

    def op_switch(self, st, fr, ins):
        v = self.val(fr, ins[4])
        if v[0] == 'i':
            for n, bb in ins[6]:
                if n == v[1]:
                    return self.goto(st, fr, bb)
            return self.goto(st, fr, ins[5])
        for n, bb in ins[6]:
            s2 = self.fork(st)
            if self.assume(s2, mk_eq(v, ('i', n)), True) and self.goto(s2, s2.frames[-1], bb):
                self.work.append(s2)
            if not self.assume(st, mk_eq(v, ('i', n)), False):
                return False
        return self.goto(st, st.frames[-1], ins[5])

    def op_icmp(self, st, fr, ins):
        fr.env[ins[1]] = self.icmp(st, ins[4], self.val(fr, ins[5]), self.val(fr, ins[6]), ins[7], fr, ins)
        fr.ip += 1
        return True

    def icmp(self, st, pred, a, b, size, fr, ins):
        if a == UNDEF or b == UNDEF:
            return ('t', 'unk', sym(('U', fr.ctx, ins[1])))
        if a[0] == 'zero':
            a = ZERO
        if b[0] == 'zero':
            b = ZERO
        if pred == 'eq':
            return mk_eq(a, b)
        if pred == 'ne':
            return neg(mk_eq(a, b))
        if pred[0] == 'u':
            f = mk_ult
            if pred == 'ult':
                return f(a, b)
            if pred == 'ugt':
                return f(b, a)
            if pred == 'uge':
                return neg(f(a, b))
            return neg(f(b, a))
        if pred == 'slt':
            return mk_slt(a, b, size)
        if pred == 'sgt':
            return mk_slt(b, a, size)
        if pred == 'sge':
            return neg(mk_slt(a, b, size))
        return neg(mk_slt(b, a, size))

    def op_fcmp(self, st, fr, ins):
        fr.env[ins[1]] = ('t', 'unk', sym(('U', fr.ctx, ins[1])))
        fr.ip += 1
        return True

    def arith(self, op, a, b, size):
        if a == UNDEF or b == UNDEF:
            return UNDEF
        if op == 'sub' and b[0] == 'i':
            op, b = 'add', ('i', mask(-b[1], size))
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y,
                     'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                     'shl': lambda: x << y, 'lshr': lambda: x >> y,
                     'ashr': lambda: signed(x, size) >> y,
                     'udiv': lambda: x // y, 'urem': lambda: x % y,
                     'sdiv': lambda: int(signed(x, size) / signed(y, size)),
                     'srem': lambda: signed(x, size) - int(signed(x, size) / signed(y, size)) * signed(y, size),
                     }[op]()
                return ('i', mask(r, size))
            except (KeyError, ZeroDivisionError):
                return UNDEF
        if op == 'add':
            if a[0] == 'i':
                a, b = b, a
            if b == ZERO:
                return a
            if a[0] == 'p' and b[0] == 'i':
                return self.gep(a, signed(b[1], 8))
            x, c = split_add(a)
            if c and b[0] == 'i':
                n = mask(c + signed(b[1], size), 8)
                return x if n == 0 else ('t', 'add', x, ('i', n))
            if b[0] == 'i':
                return ('t', 'add', a, ('i', mask(signed(b[1], size), 8)))
        elif op == 'sub':
            if a == b:
                return ZERO
            if a[0] == 'p' and b[0] == 'p':
                if a[1] == b[1]:
                    return ('i', mask(a[2] - b[2], 8))
                ka, kb = OBJ.keys[a[1]], OBJ.keys[b[1]]
                if ka[0] == 'el' and kb[0] == 'el' and ka[1] == kb[1] and a[2] == b[2]:
                    sz = self.elsize.get(ka[1], 1)
                    if ka[2][0] == '@' or kb[2][0] == '@':
                        return ('t', 'mul', sym(('I', ka[1], 'cap')), ('i', sz))
                    d = self.arith('sub', ka[2], kb[2], 8)
                    return UNDEF if d is None else self.arith('mul', d, ('i', sz), 8)
            xa, ca = split_add(a)
            xb, cb = split_add(b)
            if xa == xb:
                return ('i', mask(ca - cb, 8))
        elif op == 'xor' and b == ONE and (is_pred(a)):
            return neg(a)
        elif op in ('and', 'or') and is_pred(a) and is_pred(b):
            return ('t', op, a, b)
        elif op in ('and', 'or', 'xor'):
            if a[0] == 'i':
                a, b = b, a
            if b == ZERO:
                return ZERO if op == 'and' else a
            if op == 'and' and b == ONE and is_pred(a):
                return a
            if op == 'or' and b == ONE and is_pred(a):
                return ONE
            if a == b and op != 'xor':
                return a
        elif op == 'mul':
            if a[0] == 'i':
                a, b = b, a
            if b == ZERO:
                return ZERO
            if b == ONE:
                return a
        elif op in ('udiv', 'sdiv') and a[0] == 't' and a[1] == 'mul' and a[3] == b:
            return a[2]
        elif op in ('udiv', 'sdiv', 'lshr', 'shl') and b == (ONE if 'div' in op else ZERO):
            return a
        t = ('t', op, a, b)
        return t if depth(t) <= 4 else None

    def binop(self, st, fr, ins):
        a, b = self.val(fr, ins[4]), self.val(fr, ins[5])
        op = ins[0]
        if op in ('and', 'or', 'xor') and ins[3] == 1 and (is_pred(a) or is_pred(b)):
            a, b = to_bool(a), to_bool(b)
        v = self.arith(op, a, b, ins[3] or 8)
        if v is None:
            v = self.define(st, sym(('X', fr.ctx, ins[1], 0)))
            fr = st.frames[-1]
        fr.env[ins[1]] = v
        fr.ip += 1
        return True

    op_add = op_sub = op_mul = op_and = op_or = op_xor = op_shl = op_lshr = op_ashr = binop
    op_udiv = op_sdiv = op_urem = op_srem = binop

    def op_pass(self, st, fr, ins):
        fr.env[ins[1]] = self.val(fr, ins[4])
        fr.ip += 1
        return True

    op_bitcast = op_ptrtoint = op_inttoptr = op_freeze = op_pass

    def op_zext(self, st, fr, ins):
        fr.env[ins[1]] = self.val(fr, ins[4])
        fr.ip += 1
        return True

    op_sext = op_zext

    def op_trunc(self, st, fr, ins):
        v = self.val(fr, ins[4])
        bits1 = ins[3] == 1
        if v[0] == 'i':
            v = ('i', mask(v[1], ins[3]))
        elif v[0] == 't' and v[1] in ('add',) and ins[3] < 8:
            v = ('t', 'trunc', v, ('i', ins[3]))
        fr.env[ins[1]] = v
        fr.ip += 1
        return True

    def op_select(self, st, fr, ins):
        c = to_bool(self.val(fr, ins[4]))
        a, b = self.val(fr, ins[5]), self.val(fr, ins[6])
        if a == b:
            fr.env[ins[1]] = a
            fr.ip += 1
            return True
        t = self.truth(st, c)
        if t is None:
            if c[0] == 't' and c[1] == 'b' and c[2][0] == 'u':
                c = ('t', 'unk', sym(('U', fr.ctx, ins[1])))
            s2 = self.fork(st)
            if self.assume(s2, c, False):
                f2 = s2.frames[-1]
                f2.env[ins[1]] = self.val(f2, ins[6])
                f2.ip += 1
                self.work.append(s2)
            if not self.assume(st, c, True):
                return False
            fr = st.frames[-1]
            fr.env[ins[1]] = self.val(fr, ins[5])
        else:
            fr.env[ins[1]] = a if t else b
        fr.ip += 1
        return True

    def op_extractvalue(self, st, fr, ins):
        v = self.val(fr, ins[4])
        for i in ins[5]:
            if v[0] == 'agg':
                v = v[1][i] if i < len(v[1]) else UNDEF
            elif v[0] == 'zero':
                v = ZERO
            elif v[0] == 's':
                v = sym(('E', v[1], i))
            else:
                v = UNDEF
        fr.env[ins[1]] = v
        fr.ip += 1
        return True

    def op_insertvalue(self, st, fr, ins):
        v = self.val(fr, ins[4])
        x = self.val(fr, ins[5])

        def ins_at(v, idx):
            l = list(v[1]) if v[0] == 'agg' else []
            while len(l) <= idx[0]:
                l.append(UNDEF)
            l[idx[0]] = x if len(idx) == 1 else ins_at(l[idx[0]], idx[1:])
            return ('agg', tuple(l))
        fr.env[ins[1]] = ins_at(v, ins[6])
        fr.ip += 1
        return True

    def op_unreachable(self, st, fr, ins):
        self.stats['paths'] += 1
        return False

    def op_fence(self, st, fr, ins):
        fr.ip += 1
        return True

    def op_ret(self, st, fr, ins):
        v = self.val(fr, ins[4]) if len(ins) > 4 else VOID
        if 'leave' in self.handlers:
            self.emit('leave', st, fr.fn, v)
        return self.ret(st, v)

    def op_atomicrmw(self, st, fr, ins):
        op, pv, xv, size = ins[4], ins[5], ins[6], ins[7]
        p = self.val(fr, pv)
        x = self.val(fr, xv)
        a = self.addr(p)
        if a is None:
            return self.bad_access(st, fr, ins, p)
        o, off = a
        old = self.read(st, o, off, size, fr, ins, True)
        fr = st.frames[-1]
        x = self.val(fr, xv)
        a = self.addr(self.val(fr, pv))
        o, off = a
        if op == 'xchg':
            new = x
        elif op in ('add', 'sub', 'and', 'or', 'xor'):
            new = self.arith(op, old, x, size)
            if new is None:
                new = self.define(st, sym(('X', fr.ctx, ins[1], 1)))
                fr = st.frames[-1]
        else:
            new = self.define(st, sym(('X', fr.ctx, ins[1], 1)))
            fr = st.frames[-1]
        self.access_event(st, o, off, size, 'rmw', True, ins, (op, x, old, new))
        self.write(st, o, off, new, size, True)
        fr = st.frames[-1]
        fr.env[ins[1]] = old
        fr.ip += 1
        return True

    def op_cmpxchg(self, st, fr, ins):
        p, c, n, size = (self.val(fr, ins[4]), self.val(fr, ins[5]), self.val(fr, ins[6]), ins[7])
        a = self.addr(p)
        if a is None:
            return self.bad_access(st, fr, ins, p)
        o, off = a
        old = self.read(st, o, off, size, fr, ins, True)
        fr = st.frames[-1]
        c, n = self.val(fr, ins[5]), self.val(fr, ins[6])
        s2 = self.fork(st)
        eq = mk_eq(old, c)
        if self.truth(s2, eq) is not True:
            if self.assume(s2, eq, False):
                f2 = s2.frames[-1]
                self.access_event(s2, o, off, size, False, True, ins)
                f2.env[ins[1]] = ('agg', (old, ZERO))
                f2.ip += 1
                self.work.append(s2)
        if not self.assume(st, eq, True):
            return False
        fr = st.frames[-1]
        o, off = self.addr(self.val(fr, ins[4]))
        c, n = self.val(fr, ins[5]), self.val(fr, ins[6])
        self.access_event(st, o, off, size, 'rmw', True, ins, ('cas', n, c, n))
        self.write(st, o, off, n, size, True)
        fr = st.frames[-1]
        fr.env[ins[1]] = ('agg', (c, ONE))
        fr.ip += 1
        return True

    def op_landingpad(self, st, fr, ins):
        exc = st.exc or (UNDEF, '?')
        st.exc = None
        cleanup, clauses = ins[4], ins[5]
        alts = []
        done = False
        for kind, o in clauses:
            if kind != 'catch':
                continue
            v = self.val(fr, o)
            if v == ZERO:
                alts.append(self.tinfo('...'))
                done = True
                break
            name = OBJ.keys[v[1]][1] if v[0] == 'p' else '?'
            m = self.catches(name, exc[1])
            if m:
                alts.append(self.tinfo(name))
                done = True
                break
            if m is None:
                alts.append(self.tinfo(name))
        if not done:
            alts.append(0 if cleanup else None)
        res = None
        for sel in alts[:-1]:
            s2 = self.fork(st)
            f2 = s2.frames[-1]
            f2.env[ins[1]] = ('agg', (('x',) + exc, ('i', sel)))
            f2.ip += 1
            self.work.append(s2)
        sel = alts[-1]
        if sel is None:
            st.exc = exc
            st.frames.pop()
            self.kill(st, fr)
            if not st.frames:
                st.frames.append(fr)
                self.emit('end', st, 'unwind', exc)
                return False
            return self.unwind(st)
        fr.env[ins[1]] = ('agg', (('x',) + exc, ('i', sel)))
        fr.ip += 1
        return True

    def catches(self, handler, thrown):
        if thrown == '?':
            return None
        if handler == thrown:
            return True
        seen = set()
        todo = [thrown]
        known = False
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            g = self.prog.globals.get(t)
            if not g:
                continue
            if g.get('init', ()):
                known = True
            for off, size, op in g.get('init', ()):
                if op[0] == 'g' and op[1].startswith('_ZTI') and off >= 16:
                    if op[1] == handler:
                        return True
                    todo.append(op[1])
        # std exception hierarchy is external
        if handler == '_ZTISt9exception':
            return True
        if not known:
            return None
        return False if not any(not self.prog.globals.get(t, {}).get('init') for t in seen) else None

    def op_resume(self, st, fr, ins):
        v = self.val(fr, ins[4])
        x = v[1][0] if v[0] == 'agg' else UNDEF
        st.exc = (x[1], x[2]) if x[0] == 'x' else (UNDEF, '?')
        if len(st.frames) == 1:
            self.emit('end', st, 'unwind', st.exc)
            self.stats['paths'] += 1
            return False
        if fr.fn.nounwind:
            self.emit('terminate', st)
            self.emit('end', st, 'terminate', None)
            return False
        st.frames.pop()
        self.kill(st, fr)
        return self.unwind(st)

    def op_default(self, st, fr, ins):
        self.note('uninterpreted instruction %s' % ins[0])
        if ins[3]:
            fr.env[ins[1]] = self.define(st, sym(('X', fr.ctx, ins[1], 0)))
        st.frames[-1].ip += 1
        return True

    # ---------------------------------------------------------------- calls
    def op_call(self, st, fr, ins):
        cv = self.val(fr, ins[4])
        args = [self.val(fr, a) for a in ins[5]]
        if cv[0] == 'f':
            fn = self.prog.fns.get(cv[1])
            if fn is None:
                raise CheckError('unknown function %s' % cv[1])
            return self.invoke_fn(st, fr, ins, fn, args)
        return self.outcome(st, self.models.indirect(self, st, fr, ins, cv, args))

    op_invoke = op_call

    def args(self, st):
        """arguments of the call the top frame is at (again, after symbols were renamed)"""
        fr = st.frames[-1]
        return [self.val(fr, a) for a in fr.ins()[5]]

    def invoke_fn(self, st, fr, ins, fn, args):
        if fn.model is None:
            fn.model = self.models.resolve(fn) or False
        if fn.model:
            try:
                r = fn.model(self, st, fr, ins, fn, args)
            except Cut:
                r = DEAD
            if r is not None:
                return self.outcome(st, r)
        if fn.decl:
            return self.outcome(st, self.models.external(self, st, fr, ins, fn, args))
        if len(st.frames) > self.MAXDEPTH:
            self.note('call depth limit at %s' % fn.short())
            return self.outcome(st, self.models.external(self, st, fr, ins, fn, args))
        self.call(st, fn, args)
        return True

    # ---------------------------------------------------------------- helpers for models
    def fresh(self, st, fr, ins, tag=0):
        return self.define(st, sym(('X', fr.ctx, ins[1] if ins else 0, tag)))

    def copy_mem(self, st, dst, src, n, fr, ins):
        """memcpy of n bytes"""
        do, df = dst
        so, sf = src
        if dst == src or n == 0:
            return
        c = st.mem.get(so, EMPTY)
        vol = self.is_volatile(st, so, sf)
        cells = []
        ranges = []
        if not vol:
            for f, (v, s) in c.items():
                if isinstance(f, int) and sf <= f < sf + n:
                    cells.append((f - sf + df, v, s))
            for r in c.get('Z', ((),))[0]:
                lo, hi = max(r[0], sf), min(r[1], sf + n)
                if lo < hi:
                    r2 = self._cut(r, lo) if lo > r[0] else r
                    ranges.append((lo - sf + df, hi - sf + df) + r2[2:])
            if self.lazy(so, st):
                ranges.insert(0, (df, df + n, 'C', so, sf, None))
        else:
            ranges.append((df, df + n, 'C', so, sf, (fr.ctx, ins[1])))
        # types travel with the bytes
        if self.T(so) and self.T(so) is not self.T(do):
            for f, ns in list(self.T(so).items()):
                if sf <= f < sf + n:
                    for x in list(ns):
                        sz = self.prog.structs.get(x, {}).get('size', 0)
                        if f + sz <= sf + n and x not in self.T(do).get(f - sf + df, ()):
                            self.annotate(do, f - sf + df, x)
        if self.is_volatile(st, do, df):
            for f, v, s in cells:
                self.escape(st, v)
            f = self.owner_field(do, df)[0]
            if f:
                self.seen_written.add(f)
            return
        if self.shared(st, do):
            f = self.owner_field(do, df)[0]
            if f:
                self.seen_written.add(f)
            for f, v, s in cells:
                self.escape(st, v)
        self.raw_clear(st, do, df, n)
        nc = Cells(st.mem.get(do, EMPTY))
        for f, v, s in cells:
            nc[f] = (v, s)
        if ranges:
            nc['Z'] = (nc.get('Z', ((), 0))[0] + tuple(ranges), 0)
        st.mem[do] = nc


def mkterm(op, a):
    if op == 'eq':
        return mk_eq(*a)
    if op == 'ult':
        return mk_ult(*a)
    if op == 'slt':
        return mk_slt(a[0], a[1], 8)
    if op == 'b':
        return to_bool(a[0])
    if op == 'add':
        if a[0][0] == 'i' and a[1][0] == 'i':
            return ('i', mask(a[0][1] + a[1][1], 8))
        x, c = split_add(a[0])
        if c and a[1][0] == 'i':
            n = mask(c + a[1][1], 8)
            return x if n == 0 else ('t', 'add', x, ('i', n))
        return ('t', 'add') + a
    if op == 'sub' and a[0] == a[1]:
        return ZERO
    if op == 'trunc' and a[0][0] == 'i':
        return ('i', mask(a[0][1], a[1][1]))
    if op in ('and', 'or'):
        for i in (0, 1):
            if a[i][0] == 'i' and is_pred(a[1 - i]):
                if op == 'and':
                    return a[1 - i] if a[i][1] & 1 else ZERO
                return ONE if a[i][1] & 1 else a[1 - i]
        if a[0][0] == 'i' and a[1][0] == 'i':
            return ('i', a[0][1] & a[1][1] if op == 'and' else a[0][1] | a[1][1])
    if op in ('mul', 'sub', 'udiv', 'xor') and a[0][0] == 'i' and a[1][0] == 'i':
        x, y = a[0][1], a[1][1]
        return ('i', mask({'mul': x * y, 'sub': x - y, 'udiv': x // y if y else 0, 'xor': x ^ y}[op], 8))
    if op == 'pi' and a[0][0] == 'i':
        return ZERO
    return ('t', op) + a
