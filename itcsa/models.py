"""Abstract semantics of the C++ runtime, the threading primitives and of the
mutating container operations.  Everything else of the standard library is
interpreted from its own code."""
from .program import CheckError, strip_targs, targs
from .engine import (OBJ, SYM, CTX, UNDEF, ZERO, ONE, VOID, THROW, DEAD, CALLED, Fork, Cut, sym, Cells, EMPTY, Frame, NFrame,
                     mk_eq, mk_ult, neg, mask, base_obj, split_add)

EXACT = {}      # by mangled name
METHOD = {}     # by (class without template arguments, base name)
PREFIX = []     # by prefix of the class


def exact(*names):
    def deco(f):
        for n in names:
            EXACT[n] = f
        return f
    return deco


def method(cls, *bases):
    def deco(f):
        for b in bases:
            METHOD[cls, b] = f
        return f
    return deco


def resolve(fn):
    f = EXACT.get(fn.name)
    if f:
        return f
    f = METHOD.get((fn.cls, fn.base))
    if f:
        return f
    if fn.name.startswith('llvm.'):
        return intrinsic
    if fn.is_user and fn.decl:
        return user_function
    if fn.cls.startswith('std::__cxx11::basic_string') or fn.cls == 'std::__cxx11' and fn.base == 'to_string' \
            or fn.cls == 'std' and 'basic_string<char' in fn.dem and fn.base in ('operator+', 'operator==', 'operator!=',
                                                                                  'operator<', 'swap'):
        return string_op
    return None


# ---------------------------------------------------------------- helpers
def top(st):
    return st.frames[-1]


def nframe(eng, st, handler, data, fn=None, onunwind=None):
    fr = top(st)
    if isinstance(fr, NFrame):
        ctx = CTX((fr.ctx, 'n', handler.__name__))
    else:
        ctx = CTX((fr.ctx, 'n', fr.ins()[1]))
        eng.trim(fr)
    st.frames.append(NFrame(handler, data, ctx, fn, onunwind))


def throw(st, ti='?', val=None):
    st.exc = (val if val is not None else UNDEF, ti)
    return THROW


def access(eng, st, a, size, write, atomic=False, val=None):
    if a and OBJ.keys[a[0]][0] != 'A':
        eng.access_event(st, a[0], a[1], size, write, atomic, None, val)


def fresh_range(eng, st, a, size, fr, ins):
    """the bytes become unknown"""
    if a:
        eng.add_range(st, a[0], a[1], a[1] + max(size, 1), 'X', fr.ctx, ins[1])


# ---------------------------------------------------------------- user code
def user_event(eng, st, kind, what, may_throw):
    """user code runs here; returns the states after it: [(st, threw)]"""
    eng.emit('user', st, kind, what)
    eng.tr(st, 'user code: %s %s' % (kind, what))
    eng.havoc_shared(st)
    res = []
    if may_throw:
        s2 = eng.fork(st)
        s2.exc = (sym(('exc', top(s2).ctx, top(s2).ins()[1] if not isinstance(top(s2), NFrame) else 0)), '?')
        eng.tr(s2, 'it throws')
        res.append((s2, THROW))
    return res


def user_function(eng, st, fr, ins, fn, args):
    if fn.base.startswith('~'):
        kind, a = 'destroy', args[0]
    elif fn.base.startswith('operator('):
        kind, a = 'call', args[0]
    elif fn.base.startswith('operator='):
        kind, a = 'assign', args[0]
    else:
        kind, a = 'construct', args[0]
    i = 1 if fn.sret == 0 else 0
    what = fn.ctx
    eng.emit('userfn', st, kind, fn, args)
    alts = user_event(eng, st, kind, what, not (fn.nounwind or ins[6]))
    fr = top(st)
    args = eng.args(st)
    if fn.sret >= 0:
        p = eng.addr(args[fn.sret])
        if p:
            fresh_range(eng, st, p, 4096, fr, ins)
    if kind == 'construct' or kind == 'assign':
        p = eng.addr(args[0])
        if p and not eng.shared(st, p[0]):
            eng.raw_clear(st, p[0], p[1], 4)
    r = VOID
    if kind == 'assign':
        r = args[0]
    elif ins[3]:
        r = eng.fresh(st, fr, ins)
    return Fork(alts + [(st, r)])


def indirect(eng, st, fr, ins, cv, args):
    """call through an unknown function pointer"""
    f = fr.fn
    if cv == ZERO:
        eng.note('call of a null function pointer cut in %s' % f.short())
        return DEAD
    if f.cls == 'std::function' or f.cls == 'std::_Function_base':
        if f.base.startswith('operator('):
            closure = eng.addr(args[0])
            eng.calm = False
            eng.emit('usercall', st, cv, args)
            alts = user_event(eng, st, 'call', 'stored task', not eng.calm)
            fr = top(st)
            if ins[3]:
                return Fork(alts + [(st, eng.fresh(st, fr, ins))])
            if f.sret >= 0 or (len(f.argtys) > len(args)):
                pass
            return Fork(alts + [(st, VOID)])
        # manager: op is the last argument
        op = args[2] if len(args) > 2 else UNDEF
        if op == ('i', 3):
            user_event(eng, st, 'destroy', 'stored task', False)
            return eng.fresh(st, top(st), ins) if ins[3] else VOID
        if op == ('i', 2):
            alts = user_event(eng, st, 'copy', 'stored task', True)
            fr = top(st)
            args = eng.args(st)
            d = eng.addr(args[0])
            if d:
                fresh_range(eng, st, d, 16, fr, ins)
            return Fork(alts + [(st, eng.fresh(st, top(st), ins) if ins[3] else VOID)])
        return eng.fresh(st, fr, ins) if ins[3] else VOID
    eng.note('unresolved indirect call in %s' % f.short())
    eng.emit('unresolved', st, cv, args)
    return eng.fresh(st, fr, ins) if ins[3] else VOID


def external(eng, st, fr, ins, fn, args):
    if fn.base in ('__throw_bad_alloc', '__throw_bad_array_new_length', '__throw_length_error', '__throw_out_of_range_fmt',
                   '__throw_logic_error', '__throw_out_of_range'):
        return DEAD      # exhaustion of memory or of size_t is out of scope
    if fn.noreturn:
        return DEAD
    k = fn.dem
    if k not in eng.unmodelled:
        eng.unmodelled[k] = 0
    eng.unmodelled[k] += 1
    r = eng.fresh(st, fr, ins) if ins[3] else VOID
    return r


# ---------------------------------------------------------------- strings (opaque)
def string_op(eng, st, fr, ins, fn, args):
    if fn.cls.startswith('std::__cxx11::basic_string') and args:
        i = 1 if fn.sret == 0 else 0
        a = eng.addr(args[i]) if i < len(args) else None
        const = fn.dem.endswith(' const')
        access(eng, st, a, 32, not const)
        if fn.base in ('operator=', 'basic_string') and len(args) > i + 1:
            b = eng.addr(args[i + 1])
            access(eng, st, b, 32, '&&' in fn.dem)
    if fn.base == 'empty' and args:
        a = eng.addr(args[0])
        if a and not eng.is_volatile(st, a[0], a[1]) and eng.lazy(a[0], st):
            return ('t', 'b', sym(('I', a[0], ('str', a[1]))))
    if fn.base == 'operator=' or fn.base in ('append', 'assign', 'operator+='):
        return args[0]
    if ins[3]:
        return eng.fresh(st, fr, ins)
    return VOID


# ---------------------------------------------------------------- intrinsics
def intrinsic(eng, st, fr, ins, fn, args):
    n = fn.name
    if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
        d, s, sz = eng.addr(args[0]), eng.addr(args[1]), args[2]
        if d and s:
            if OBJ.keys[s[0]][0] != 'A':
                access(eng, st, s, sz[1] if sz[0] == 'i' else 0, False)
            if OBJ.keys[d[0]][0] != 'A':
                access(eng, st, d, sz[1] if sz[0] == 'i' else 0, True)
            if sz[0] == 'i':
                eng.copy_mem(st, d, s, sz[1], fr, ins)
            else:
                eng.note('memcpy of unknown size in %s' % fr.fn.short())
        return VOID
    if n.startswith('llvm.memset'):
        d, v, sz = eng.addr(args[0]), args[1], args[2]
        if d and sz[0] == 'i':
            if OBJ.keys[d[0]][0] != 'A':
                access(eng, st, d, sz[1], True)
            if eng.is_volatile(st, d[0], d[1]):
                f = eng.owner_field(*d)[0]
                if f:
                    eng.seen_written.add(f)
            elif v == ZERO:
                eng.add_range(st, d[0], d[1], d[1] + sz[1], 0)
            else:
                fresh_range(eng, st, d, sz[1], fr, ins)
        return VOID
    if n.startswith('llvm.lifetime') or n.startswith('llvm.assume') or n.startswith('llvm.experimental') \
            or n.startswith('llvm.dbg') or n.startswith('llvm.stack') or n.startswith('llvm.invariant'):
        if n.startswith('llvm.lifetime'):
            d = eng.addr(args[1])
            if d and OBJ.keys[d[0]][0] == 'A':
                st.mem.pop(d[0], None)
        return VOID
    if n.startswith('llvm.expect') or n.startswith('llvm.threadlocal'):
        return args[0]
    if n == 'llvm.eh.typeid.for' or n.startswith('llvm.eh.typeid.for'):
        v = args[0]
        return ('i', eng.tinfo(OBJ.keys[v[1]][1] if v[0] == 'p' else '?'))
    if n.startswith('llvm.trap'):
        return DEAD
    return eng.fresh(st, fr, ins) if ins[3] else VOID


# ---------------------------------------------------------------- memory
@exact('_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t', '_ZnwmSt11align_val_t')
def op_new(eng, st, fr, ins, fn, args):
    o = OBJ(('H', fr.ctx, ins[1]))
    eng.define_obj(st, o)
    st.mem.pop(o, None)
    st.esc = st.esc - {o}
    st.mem[o] = Cells()
    if fr.fn.cls == 'std::__new_allocator' and fr.fn.base == 'allocate':
        # an array of elements
        sz = alloc_stride(eng, fr.fn)
        t = targs(fr.fn.ctx)
        if t and '_Sp_counted' not in t[0] and '_Hash_node' not in t[0] and '_Rb_tree_node' not in t[0]:
            eng.elsize[o] = sz
            return ('p', eng.elem(o, ZERO), 0)
    return ('p', o, 0)


def alloc_stride(eng, fn):
    for b in fn.blocks:
        for i in b:
            if i[0] == 'mul':
                for o in i[4:6]:
                    if o[0] == 'i':
                        return o[1]
            if i[0] == 'shl' and i[5][0] == 'i':
                return 1 << i[5][1]
    return 1


@exact('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', 'free')
def op_delete(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    if a:
        o = base_obj(a[0])
        eng.emit('free', st, o)
        if OBJ.keys[o][0] == 'H':
            for e in list(st.mem):
                if e != o and base_obj(e) == o:
                    del st.mem[e]
            st.mem[o] = Cells({'freed': (ONE, 1)})
    return VOID


@exact('__cxa_atexit', '__cxa_pure_virtual', '__cxa_guard_release', '__cxa_guard_abort')
def nop(eng, st, fr, ins, fn, args):
    return ZERO if ins[3] else VOID


@exact('__cxa_guard_acquire')
def guard_acquire(eng, st, fr, ins, fn, args):
    return ('t', 'b', eng.fresh(st, fr, ins))


@exact('strlen')
def strlen(eng, st, fr, ins, fn, args):
    return eng.fresh(st, fr, ins)


@exact('__assert_fail', 'abort', '_ZSt9terminatev', 'exit', '__cxa_throw_bad_array_new_length')
def m_abort(eng, st, fr, ins, fn, args):
    eng.emit('abort', st, fn.dem)
    return DEAD


# ---------------------------------------------------------------- exceptions
@exact('__cxa_allocate_exception')
def cxa_alloc(eng, st, fr, ins, fn, args):
    o = OBJ(('H', fr.ctx, ins[1]))
    eng.define_obj(st, o)
    st.mem[o] = Cells()
    return ('p', o, 0)


@exact('__cxa_free_exception', '__cxa_init_primary_exception')
def cxa_free(eng, st, fr, ins, fn, args):
    return args[0] if ins[3] else VOID


@exact('__cxa_throw')
def cxa_throw(eng, st, fr, ins, fn, args):
    ti = OBJ.keys[args[1][1]][1] if args[1][0] == 'p' else '?'
    eng.emit('throw', st, ti, args[0])
    eng.tr(st, 'throw %s' % ti)
    return throw(st, ti, args[0])


@exact('__cxa_rethrow')
def cxa_rethrow(eng, st, fr, ins, fn, args):
    if st.caught:
        st.exc = st.caught[-1]
    else:
        st.exc = (UNDEF, '?')
    eng.emit('rethrow', st)
    return THROW


@exact('__cxa_begin_catch', '__cxa_get_exception_ptr')
def cxa_begin(eng, st, fr, ins, fn, args):
    x = args[0]
    e = (x[1], x[2]) if x[0] == 'x' else (UNDEF, '?')
    if fn.name == '__cxa_begin_catch':
        st.caught = st.caught + (e,)
        eng.emit('catch', st, e)
    return e[0]


@exact('__cxa_end_catch')
def cxa_end(eng, st, fr, ins, fn, args):
    st.caught = st.caught[:-1]
    return VOID


@exact('__clang_call_terminate', '_ZSt10unexpectedv')
def m_term(eng, st, fr, ins, fn, args):
    eng.emit('terminate', st)
    eng.emit('end', st, 'terminate', None)
    return DEAD


@exact('_Unwind_Resume')
def unwind_resume(eng, st, fr, ins, fn, args):
    x = args[0]
    st.exc = (x[1], x[2]) if x[0] == 'x' else (UNDEF, '?')
    return THROW


@method('std', 'current_exception')
def current_exception(eng, st, fr, ins, fn, args):
    """exception_ptr is one word: the thrown object"""
    e = st.caught[-1][0] if st.caught else ZERO
    if e[0] == 'u':
        e = eng.fresh(st, fr, ins)
        args = eng.args(st)
    eng.emit('current_exception', st, e)
    a = eng.addr(args[0])
    if fn.sret == 0 and a:
        eng.write(st, a[0], a[1], e, 8)
        return VOID
    return e


@method('std', 'make_exception_ptr')
def make_exception_ptr(eng, st, fr, ins, fn, args):
    o = OBJ(('H', fr.ctx, ins[1]))
    eng.define_obj(st, o)
    args = eng.args(st)
    t = targs(fn.dem[fn.dem.find('make_exception_ptr'):])
    st.mem[o] = Cells({'exctype': (('fp', t[0] if t else '?'), 8)})
    src = eng.addr(args[1]) if len(args) > 1 else None
    if src:
        # the code of a future_error identifies it
        eng.copy_mem(st, (o, 0), src, 40, fr, ins)
    a = eng.addr(args[0])
    if a:
        eng.write(st, a[0], a[1], ('p', o, 0), 8)
    return VOID


@method('std', 'rethrow_exception')
def rethrow_exception(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    v = eng.read(st, a[0], a[1], 8, fr, ins) if a else UNDEF
    eng.emit('throw', st, 'rethrow_exception', v)
    eng.tr(st, 'rethrow stored exception')
    return throw(st, '?', v)


@method('std::__exception_ptr::exception_ptr', '_M_addref', '_M_release', '_M_get')
def eptr_ref(eng, st, fr, ins, fn, args):
    if fn.base == '_M_get':
        return None
    if fn.base == '_M_release':
        a = eng.addr(args[0])
        if a:
            v = eng.read(st, a[0], a[1], 8, fr, ins)
            eng.emit('release_exc', st, v)
    return VOID


@method('std::__exception_ptr::exception_ptr', 'exception_ptr')
def eptr_ctor(eng, st, fr, ins, fn, args):
    if fn.decl:
        a = eng.addr(args[0])
        if a:
            eng.write(st, a[0], a[1], args[1] if len(args) > 1 else ZERO, 8)
        return VOID
    return None


def exc_ctor(eng, st, fr, ins, fn, args):
    """external constructors of standard exceptions"""
    if not fn.decl:
        return None
    return VOID


for _c in ('logic_error', 'runtime_error', 'system_error', 'future_error', 'exception'):
    for _m in (_c, '~' + _c, 'what'):
        METHOD['std::' + _c, _m] = exc_ctor


@method('std::_V2', 'generic_category', 'system_category')
@method('std', 'generic_category', 'future_category', 'system_category', '__once_call')
def category(eng, st, fr, ins, fn, args):
    return ('p', OBJ(('G', '@' + fn.base)), 0) if fn.decl else None


@method('std::error_code', 'message')
@method('std::error_condition', 'message')
def error_message(eng, st, fr, ins, fn, args):
    return VOID


@method('std', '__throw_system_error', '__throw_future_error', '__throw_bad_function_call', '__throw_bad_weak_ptr')
def throw_std(eng, st, fr, ins, fn, args):
    eng.emit('throw', st, fn.base, None)
    return throw(st, {'__throw_system_error': '_ZTISt12system_error', '__throw_future_error': '_ZTISt12future_error',
                      '__throw_bad_function_call': '_ZTISt17bad_function_call',
                      '__throw_bad_weak_ptr': '_ZTISt12bad_weak_ptr'}[fn.base])


# ---------------------------------------------------------------- locks
MUTEXES = ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex', 'std::recursive_timed_mutex',
           'std::__mutex_base', 'std::shared_timed_mutex')


def do_lock(eng, st, loc):
    if loc in st.locks:
        eng.emit('relock', st, loc)
    eng.emit('lock', st, loc)
    eng.tr(st, 'lock %s' % (eng.field(*loc) or 'user lock'))
    st.locks = st.locks + (loc,)


def do_unlock(eng, st, loc):
    eng.emit('unlock', st, loc)
    eng.tr(st, 'unlock %s' % (eng.field(*loc) or 'user lock'))
    if loc in st.locks:
        l = list(st.locks)
        del l[len(l) - 1 - l[::-1].index(loc)]
        st.locks = tuple(l)
    if loc not in st.locks:
        eng.havoc_shared(st, loc)


def m_lock(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    if a is None and args[0][0] == 'i':
        return DEAD      # null object
    if a:
        do_lock(eng, st, a)
    return ZERO if ins[3] else VOID


def m_unlock(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    if a:
        do_unlock(eng, st, a)
    return ZERO if ins[3] else VOID


def m_trylock(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    s2 = eng.fork(st)
    if a:
        eng.emit('trylock', st, a)
        st.locks = st.locks + (a,)
    ok, no = (ZERO, ('i', 16)) if fn.name.startswith('pthread') else (ONE, ZERO)
    return Fork([(s2, no), (st, ok)])


for _c in MUTEXES:
    METHOD[_c, 'lock'] = METHOD[_c, 'lock_shared'] = m_lock
    METHOD[_c, 'unlock'] = METHOD[_c, 'unlock_shared'] = m_unlock
    METHOD[_c, 'try_lock'] = METHOD[_c, 'try_lock_shared'] = m_trylock
EXACT['pthread_mutex_lock'] = m_lock
EXACT['pthread_mutex_unlock'] = m_unlock
EXACT['pthread_mutex_trylock'] = m_trylock


def do_block(eng, st, what, cv, loc, timed):
    """the thread may sleep here; loc is given up meanwhile"""
    eng.emit('block', st, what, cv, loc, timed)
    eng.tr(st, 'block: %s' % what)
    locks = st.locks
    if loc is not None and loc in locks:
        l = list(locks)
        l.remove(loc)
        st.locks = tuple(l)
    eng.havoc_shared(st)
    if loc is not None:
        eng.havoc_shared(st, loc)
    st.locks = locks
    eng.emit('unblock', st, what, cv, loc, timed)


@method('std::condition_variable', 'wait')
@method('std::_V2::condition_variable_any', 'wait')
def cv_wait(eng, st, fr, ins, fn, args):
    if not fn.decl:
        return None
    a = eng.addr(args[1])
    m = eng.addr(eng.read(st, a[0], a[1], 8, fr, ins)) if a else None
    do_block(eng, st, 'condition', eng.addr(args[0]), m, False)
    return VOID


@exact('pthread_cond_clockwait', 'pthread_cond_timedwait', 'pthread_cond_wait')
def cond_wait(eng, st, fr, ins, fn, args):
    do_block(eng, st, 'condition', eng.addr(args[0]), eng.addr(args[1]), fn.name != 'pthread_cond_wait')
    return eng.fresh(st, top(st), ins)


@method('std::condition_variable', 'notify_all', 'notify_one')
def cv_notify(eng, st, fr, ins, fn, args):
    eng.emit('notify', st, eng.addr(args[0]), fn.base == 'notify_all')
    eng.tr(st, fn.base)
    return VOID


@method('std::condition_variable', 'condition_variable', '~condition_variable')
def cv_ctor(eng, st, fr, ins, fn, args):
    return VOID


@method('std::thread', 'join')
def thread_join(eng, st, fr, ins, fn, args):
    if not fn.decl:
        return None
    a = eng.addr(args[0])
    eng.emit('join', st, a)
    do_block(eng, st, 'join', None, None, False)
    if a:
        eng.write(st, a[0], a[1], ZERO, 8)
    return VOID


@method('std::thread', 'detach')
def thread_detach(eng, st, fr, ins, fn, args):
    if not fn.decl:
        return None
    a = eng.addr(args[0])
    eng.emit('detach', st, a)
    if a:
        eng.write(st, a[0], a[1], ZERO, 8)
    return VOID


@method('std::thread', '_M_start_thread')
def start_thread(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    p = eng.addr(args[1])
    v = eng.read(st, p[0], p[1], 8, fr, ins) if p else UNDEF
    eng.emit('spawn', st, v)
    eng.tr(st, 'start thread')
    eng.escape(st, v)
    if p:
        eng.write(st, p[0], p[1], ZERO, 8)
    t = eng.fresh(st, top(st), ins)
    a = eng.addr(eng.args(st)[0])
    if a:
        eng.write(st, a[0], a[1], t, 8)
    eng.assume(st, mk_eq(t, ZERO), False)
    return VOID


@method('std::thread', 'hardware_concurrency')
def hw(eng, st, fr, ins, fn, args):
    return eng.fresh(st, fr, ins)


@method('std::thread::_State', '~_State')
def state_dtor(eng, st, fr, ins, fn, args):
    return VOID


@exact('pthread_self')
def pthread_self(eng, st, fr, ins, fn, args):
    return sym(('self',))


@method('std::this_thread', 'get_id')
def this_id(eng, st, fr, ins, fn, args):
    v = sym(('self',))
    if mk_eq(v, ZERO) not in st.facts:
        eng.assume(st, mk_eq(v, ZERO), False)
    return v


@method('std::this_thread', 'sleep_for', 'sleep_until', 'yield')
def m_sleep(eng, st, fr, ins, fn, args):
    do_block(eng, st, 'sleep', None, None, True)
    return VOID


@exact('nanosleep', 'usleep', 'sched_yield', 'clock_nanosleep')
def m_nsleep(eng, st, fr, ins, fn, args):
    do_block(eng, st, 'sleep', None, None, True)
    return eng.fresh(st, top(st), ins)


@method('std::chrono::_V2::steady_clock', 'now')
@method('std::chrono::_V2::system_clock', 'now')
def m_now(eng, st, fr, ins, fn, args):
    v = eng.fresh(st, fr, ins)
    eng.emit('now', st, v)
    return v


# ---------------------------------------------------------------- shared pointers
SPC = 'std::_Sp_counted_base'


def pi_kind(eng, st, v):
    a = eng.addr(v)
    if a is None:
        return None, None
    if OBJ.keys[a[0]][0] == 'H' and a[1] == 0 and eng.cells(st, a[0]).get(8):
        return a[0], ('esc' if a[0] in st.esc else 'own')
    return a[0], 'sym'


def kept_refs(eng, st, v):
    """owning references to control block v in memory no other thread can change now"""
    n = 0
    for o, c in st.mem.items():
        for f, (x, s) in c.items():
            if x == v and f != 'Z' and not eng.is_volatile(st, o, f):
                n += 1
    return n


def pointee_type(st):
    for fr in reversed(st.frames):
        if isinstance(fr, NFrame):
            continue
        if fr.fn.cls in ('std::__shared_ptr', 'std::shared_ptr', 'std::__weak_ptr'):
            t = targs(fr.fn.ctx)
            return t[0] if t else '?'
    return '?'


@method(SPC, '_M_add_ref_copy')
def add_ref(eng, st, fr, ins, fn, args):
    o, k = pi_kind(eng, st, args[0])
    eng.emit('retain', st, args[0])
    if k == 'own' or k == 'esc':
        v = eng.cells(st, o)[8][0]
        eng.raw_write(st, o, 8, eng.arith('add', v, ONE, 4), 4)
    return VOID


@method(SPC, '_M_weak_add_ref')
def weak_add_ref(eng, st, fr, ins, fn, args):
    return VOID


@method(SPC, '_M_weak_release')
def weak_release(eng, st, fr, ins, fn, args):
    return VOID


@method(SPC, '_M_get_use_count')
def use_count(eng, st, fr, ins, fn, args):
    o, k = pi_kind(eng, st, args[0])
    if k == 'own':
        return eng.cells(st, o)[8][0]
    v = eng.fresh(st, fr, ins)
    if fr.fn.cls.startswith('std::__shared_count'):
        # asked by an owner
        eng.assume(st, mk_eq(v, ZERO), False)
    return v


@method(SPC, '_M_add_ref_lock_nothrow')
def add_ref_lock(eng, st, fr, ins, fn, args):
    o, k = pi_kind(eng, st, args[0])
    if k == 'own':
        v = eng.cells(st, o)[8][0]
        if v[0] == 'i' and v[1] > 0:
            eng.emit('retain', st, args[0])
            eng.raw_write(st, o, 8, eng.arith('add', v, ONE, 4), 4)
            return ONE
        if v == ZERO:
            return ZERO
    s2 = eng.fork(st)
    eng.emit('retain', st, args[0])
    return Fork([(s2, ZERO), (st, ONE)])


@method(SPC, '_M_release')
def release(eng, st, fr, ins, fn, args):
    pi = args[0]
    o, k = pi_kind(eng, st, pi)
    if k is None:
        return VOID
    eng.emit('release', st, pi)
    if k == 'own':
        v = eng.cells(st, o)[8][0]
        if v[0] == 'i' and v[1] > 1:
            eng.raw_write(st, o, 8, ('i', v[1] - 1), 4)
            return VOID
        if v == ONE:
            eng.raw_write(st, o, 8, ZERO, 4)
            eng.emit('destroy', st, pointee_type(st), pi, True)
            # _M_dispose is the third virtual function
            vt = eng.read(st, o, 0, 8, fr, ins)
            f = eng.read(st, vt[1], vt[2] + 16, 8, fr, ins) if vt[0] == 'p' else UNDEF
            if f[0] == 'f':
                g = eng.prog.fns.get(f[1])
                if g and not g.decl:
                    nframe(eng, st, after_dispose, (pi,))
                    eng.call(st, g, [pi])
                    return CALLED
            return VOID
        return VOID
    if k == 'esc':
        v = eng.cells(st, o)[8][0]
        if v[0] == 'i' and v[1] > 0:
            eng.raw_write(st, o, 8, ('i', v[1] - 1), 4)
    # the reference given up may be one of those counted
    own = eng.addr(top(st).env.get(0, UNDEF)) if top(st).fn.cls.startswith('std::__shared_count') else None
    mine = 0 if own and eng.is_volatile(st, *own) else 1
    if kept_refs(eng, st, pi) <= mine:
        eng.emit('destroy', st, pointee_type(st), pi, False)
        eng.tr(st, 'last reference to %s may go' % strip_targs(pointee_type(st)))
    return VOID


def after_dispose(eng, st, nf, ret):
    a = eng.addr(nf.data[0])
    if a and OBJ.keys[a[0]][0] == 'H':
        st.mem[a[0]] = Cells({'freed': (ONE, 1)})
    return VOID


@method('std', 'atomic_load', 'atomic_load_explicit')
def sp_atomic_load(eng, st, fr, ins, fn, args):
    if 'shared_ptr' not in fn.dem:
        return None
    a = eng.addr(args[1])
    access(eng, st, a, 16, False, True)
    d = eng.addr(args[0])
    if eng.shared(st, a[0]):
        p = eng.define(st, sym(('R', fr.ctx, ins[1], a[0], a[1])))
        d = eng.addr(eng.args(st)[0])
        eng.assume(st, mk_eq(p, ZERO), False) if False else None
        eng.write(st, d[0], d[1], p, 8)
        eng.write(st, d[0], d[1] + 8, ('t', 'pi', p), 8)
    else:
        eng.copy_mem(st, d, a, 16, fr, ins)
        pi = eng.read(st, d[0], d[1] + 8, 8, fr, ins)
        o, k = pi_kind(eng, st, pi)
        if k == 'own':
            eng.raw_write(st, o, 8, eng.arith('add', eng.cells(st, o)[8][0], ONE, 4), 4)
    return VOID


@method('std', 'atomic_store', 'atomic_store_explicit', 'atomic_exchange', 'atomic_exchange_explicit')
def sp_atomic_store(eng, st, fr, ins, fn, args):
    if 'shared_ptr' not in fn.dem:
        return None
    i = 1 if fn.sret == 0 else 0
    a = eng.addr(args[i])
    s = eng.addr(args[i + 1])
    access(eng, st, a, 16, True, True)
    f = eng.owner_field(*a)[0]
    if f:
        eng.seen_written.add(f)
    v = eng.read(st, s[0], s[1], 8, fr, ins)
    pi = eng.read(st, s[0], s[1] + 8, 8, fr, ins)
    if eng.shared(st, a[0]):
        eng.escape(st, v)
        eng.escape(st, pi)
    # the argument now owns the old value
    old = eng.define(st, sym(('R', fr.ctx, ins[1], a[0], a[1])))
    args = eng.args(st)
    s = eng.addr(args[i + 1]) if i == 0 else eng.addr(args[0])
    eng.write(st, s[0], s[1], old, 8)
    eng.write(st, s[0], s[1] + 8, ('t', 'pi', old), 8)
    return VOID


# ---------------------------------------------------------------- vectors
def vec_type(eng, st, a, fn):
    """mark the memory as a vector of the method's element type"""
    if a is None:
        eng.note('access through an unknown pointer in %s' % fn.short())
        raise Cut()
    t = targs(fn.ctx)[0]
    eng.annotate(a[0], a[1], 'struct.std::_Vector_base<%s,>::_Vector_impl' % t)
    return t


def new_buffer(eng, st, fr, ins, a, t):
    """give the (empty) vector at a a fresh empty buffer"""
    o = OBJ(('H', fr.ctx, ins[1]))
    eng.define_obj(st, o)
    st.mem[o] = Cells()
    st.esc = st.esc - {o}
    sz = eng.prog.sizeof(t)
    if sz is None:
        raise CheckError('unknown size of %s' % t)
    eng.elsize[o] = sz
    set_buffer(eng, st, a, o, ZERO)
    return o


def set_buffer(eng, st, a, buf, size):
    for d, i in ((0, ZERO), (8, size), (16, ('@', 'cap'))):
        eng.write(st, a[0], a[1] + d, ('p', eng.elem(buf, i), 0), 8)


def derived(eng, st, fr, ins, buf, a):
    """contents of buf after an operation that shuffles elements"""
    root = buf
    while OBJ.keys[root][0] == 'der':
        root = OBJ.keys[root][1]
    priv = buf in st.priv
    o = OBJ(('der', root, fr.ctx, ins[1]))
    if buf in eng.elsize:
        eng.elsize[o] = eng.elsize[buf]
    eng.define_obj(st, o)
    st.mem.pop(o, None)
    for e in list(st.mem):
        if e != o and OBJ.keys[e][0] in ('el', 'nd') and OBJ.keys[e][1] == o:
            del st.mem[e]
    if priv:
        st.priv = st.priv | {o}
    eng.bufowner[o] = a
    return o


@method('std::vector', '_M_realloc_insert', '_M_realloc_append')
def vec_grow(eng, st, fr, ins, fn, args):
    """only reached for a vector without storage: give it some and run the caller's insertion again"""
    a = eng.addr(args[0])
    t = vec_type(eng, st, a, fn)
    buf, s = eng.sequence(st, a[0], a[1], fr, ins)
    if buf is None:
        new_buffer(eng, st, fr, ins, a, t)
    # the enclosing emplace_back/push_back is re-entered
    caller = fr.fn
    cargs = fr.args
    if caller.cls == 'std::vector' and caller.base in ('emplace_back', 'push_back'):
        eng.call(st, caller, [x for x in (fr_args(eng, st) or cargs)])
        return CALLED
    if caller.cls == 'std::vector' and caller.base in ('insert', 'emplace', '_M_insert_rval', '_M_emplace_aux'):
        cargs = list(fr_args(eng, st) or cargs)
        o, off = eng.addr(cargs[0])
        cargs[1] = eng.read(st, o, off, 8, top(st), ins)
        eng.call(st, caller, cargs)
        return CALLED
    raise CheckError('unexpected growth of a vector in %s' % caller.short())


def fr_args(eng, st):
    """current values of the arguments of the function in the top frame"""
    fr = top(st)
    n = fr.fn.nargs
    if all(i in fr.env for i in range(n)):
        return [fr.env[i] for i in range(n)]
    return None


@method('std::vector', 'reserve')
def vec_reserve(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    t = vec_type(eng, st, a, fn)
    access(eng, st, a, 24, True)
    buf, s = eng.sequence(st, a[0], a[1], fr, ins)
    if eng.shared(st, a[0]):
        f = eng.owner_field(*a)[0]
        if f:
            eng.seen_written.add(f)
    if buf is None:
        new_buffer(eng, st, top(st), ins, a, t)
    return VOID


@method('std::vector', 'shrink_to_fit', '_M_shrink_to_fit')
def vec_shrink(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    access(eng, st, a, 24, True)
    return ONE if ins[3] else VOID


@method('std::vector', '_M_insert_aux')
def vec_insert(eng, st, fr, ins, fn, args):
    """insertion before an existing element"""
    a = eng.addr(args[0])
    vec_type(eng, st, a, fn)
    access(eng, st, a, 24, True)
    buf, s = eng.sequence(st, a[0], a[1], fr, ins)
    b, i = seq_iter(eng, args[1])
    eng.emit('insert_at', st, a, buf, i)
    eng.tr(st, 'insert into the middle of a sequence')
    if buf is None:
        return VOID
    nb = derived(eng, st, fr, ins, buf, a)
    ns = eng.arith('add', s, ONE, 8)
    eng.raw_write(st, nb, 'S', ns, 8)
    set_buffer(eng, st, a, nb, ns)
    return VOID


def elem_dtor(eng, t):
    return eng.prog.find_dtor(t)


@method('std::vector', '_M_erase')
def vec_erase(eng, st, fr, ins, fn, args):
    """erase(position) and erase(first, last)"""
    a = eng.addr(args[0])
    t = vec_type(eng, st, a, fn)
    access(eng, st, a, 24, True)
    if eng.shared(st, a[0]):
        f = eng.owner_field(*a)[0]
        if f:
            eng.seen_written.add(f)
    buf, s = eng.sequence(st, a[0], a[1], fr, ins)
    if buf is None:
        return args[1]
    ki = OBJ.keys[args[1][1]] if args[1][0] == 'p' else None
    if not ki or ki[0] != 'el' or ki[1] != buf:
        eng.note('erase at an unknown position in %s' % fr.fn.short())
        i = None
    else:
        i = ki[2]
    if len(args) == 2:
        eng.emit('erase', st, a, buf, i, None)
        d = elem_dtor(eng, t)
        nframe(eng, st, vec_erase_done, (('#o', a[0], a[1]), ('#o', buf), s, i or UNDEF), fn)
        if d and i:
            eng.call(st, d, [('p', eng.elem(buf, i), 0)])
            return CALLED
        nf = st.frames.pop()
        return vec_erase_done(eng, st, nf, VOID)
    kj = OBJ.keys[args[2][1]] if args[2][0] == 'p' else None
    j = kj[2] if kj and kj[0] == 'el' else None
    if i is not None and j is not None and mk_eq(i, j) == ONE:
        return args[1]
    eng.emit('erase', st, a, buf, i, j)
    nb = derived(eng, st, fr, ins, buf, a)
    if j is not None and i is not None and mk_eq(j, s) == ONE:
        ns = i
    else:
        ns = eng.fresh(st, top(st), ins, 'S')
        a = eng.addr(eng.args(st)[0])
    eng.raw_write(st, nb, 'S', ns, 8)
    set_buffer(eng, st, a, nb, ns)
    return ('p', eng.elem(nb, i or ZERO), 0)


def vec_erase_done(eng, st, nf, ret):
    (_, o, f), (_, buf), s, i = nf.data
    fr = top(st)
    ins = fr.ins()
    nb = derived(eng, st, fr, ins, buf, (o, f))
    ns = eng.arith('add', s, ('i', mask(-1, 8)), 8)
    eng.raw_write(st, nb, 'S', ns, 8)
    set_buffer(eng, st, (o, f), nb, ns)
    return ('p', eng.elem(nb, i if i[0] != 'u' else ZERO), 0)


@method('std::priority_queue', 'emplace', 'push', 'pop')
def pq_op(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    vec_type(eng, st, a, fn)
    t = targs(fn.ctx)[0]
    access(eng, st, a, 24, True)
    buf, s = eng.sequence(st, a[0], a[1], fr, ins)
    eng.emit('pq', st, fn.base, a, buf, s, args)
    eng.tr(st, 'priority queue %s' % fn.base)
    if eng.shared(st, a[0]):
        f = eng.owner_field(*a)[0]
        if f:
            eng.seen_written.add(f)
    if buf is None:
        if fn.base == 'pop':
            return DEAD
        buf = new_buffer(eng, st, fr, ins, a, t)
        a = eng.addr(eng.args(st)[0])
    nb = derived(eng, st, fr, ins, buf, a)
    ns = eng.arith('add', s, ONE if fn.base != 'pop' else ('i', mask(-1, 8)), 8)
    eng.raw_write(st, nb, 'S', ns, 8)
    set_buffer(eng, st, a, nb, ns)
    return VOID


@method('std::_Destroy_aux', '__destroy')
def destroy_range(eng, st, fr, ins, fn, args):
    """destroy the elements of a range: all of a short known one, else an arbitrary one"""
    if args[0] == args[1]:
        return VOID
    b1, i1 = seq_iter(eng, args[0])
    b2, i2 = seq_iter(eng, args[1])
    if b1 is None or b1 != b2:
        return None
    if i1[0] == 'i' and i2[0] == 'i' and i2[1] - i1[1] <= 3:
        return None
    d = callee_named(eng, fn, lambda g: g.base.startswith('~'), 2)
    if d is None:
        return VOID
    cond = mk_ult(i1, i2)
    w = eng.fresh(st, fr, ins, 'w')
    args = eng.args(st)
    b1, i1 = seq_iter(eng, args[0])
    b2, i2 = seq_iter(eng, args[1])
    cond = neg(mk_eq(i1, i2))
    alts = []
    s2 = eng.fork(st)
    if eng.assume(s2, cond, False):
        alts.append((s2, VOID))
    if eng.assume(st, cond, True) and eng.assume(st, mk_ult(w, i2), True) and eng.assume(st, mk_ult(w, i1), False):
        args = eng.args(st)
        b1, i1 = seq_iter(eng, args[0])
        nframe(eng, st, destroyed_range, (), fn)
        eng.call(st, d, [('p', eng.elem(b1, w), 0)])
        alts.append((st, CALLED))
    return Fork(alts)


def destroyed_range(eng, st, nf, ret):
    return VOID


# ---------------------------------------------------------------- algorithms over sequences
def seq_iter(eng, v):
    if v[0] == 'p' and OBJ.keys[v[1]][0] == 'el':
        k = OBJ.keys[v[1]]
        return k[1], k[2]
    return None, None


@method('std', 'find_if', '__find_if', 'any_of', 'none_of', 'find_if_not', 'all_of')
def find_if(eng, st, fr, ins, fn, args):
    """either no element satisfies the predicate or some element does"""
    off = 0
    first, last = args[0], args[1]
    b1, i1 = seq_iter(eng, first)
    b2, i2 = seq_iter(eng, last)
    want = fn.base not in ('find_if_not', 'all_of')
    none = {'any_of': ZERO, 'none_of': ONE, 'all_of': ONE}.get(fn.base, last)
    if first == last:
        return none
    if b1 is None or b1 != b2:
        return None
    pred = predicate(eng, fn)
    if not pred:
        return None
    w = eng.fresh(st, fr, ins, 'w')
    args = eng.args(st)
    first, last = args[0], args[1]
    b1, i1 = seq_iter(eng, first)
    b2, i2 = seq_iter(eng, last)
    if fn.base not in ('any_of', 'none_of', 'all_of'):
        none = last
    s2 = eng.fork(st)
    eng.emit('nomatch', s2, b1, pred)
    if not eng.assume(st, mk_ult(w, i2), True):
        return Fork([(s2, none)])
    el = ('p', eng.elem(b1, w), 0)
    clo = closure_arg(eng, st, fr, ins, args[2])
    nframe(eng, st, find_if_done, (el, fn.base, want), fn)
    eng.call(st, pred, [clo, el])
    return Fork([(s2, none), (st, CALLED)])


def find_if_done(eng, st, nf, ret):
    el, base, want = nf.data
    t = ret if ret[0] in ('i', 'n', 't') else ('t', 'b', ret)
    if not eng.assume(st, t if t[0] != 'i' else t, want):
        return DEAD
    return {'any_of': ONE, 'none_of': ZERO, 'all_of': ZERO}.get(base, None) or el if base not in ('none_of', 'all_of') else ZERO


def closure_arg(eng, st, fr, ins, v):
    """closures of one pointer are passed by value: materialise"""
    if v[0] in ('p',) and OBJ.keys[v[1]][0] == 'A' or v[0] == 'p':
        # by value single pointer or by reference: by value closures hold a pointer in their first word
        pass
    o = OBJ(('A', fr.ctx, ('clo', ins[1])))
    st.mem[o] = Cells({0: (v, 8)})
    return ('p', o, 0)


def predicate(eng, fn):
    """the operator() of the closure type in the template arguments"""
    t = fn.dem
    c = callee_named(eng, fn, lambda g: g.base.startswith('operator(') and g.repo, 6)
    return c


def callee_named(eng, fn, test, depth, seen=None):
    """breadth-first search for a callee"""
    todo = [(fn, 0)]
    seen = set()
    while todo:
        f, d = todo.pop(0)
        if f.name in seen or f.decl or d > depth:
            continue
        seen.add(f.name)
        for b in f.blocks:
            for i in b:
                if i[0] in ('call', 'invoke') and i[4][0] == 'f':
                    g = eng.prog.fns[i[4][1]]
                    if test(g):
                        return g
                    todo.append((g, d + 1))
    return None


@method('std', 'remove_if', '__remove_if', 'remove')
def remove_if(eng, st, fr, ins, fn, args):
    """new end of the range: some index not above the old one"""
    b1, i1 = seq_iter(eng, args[0])
    b2, i2 = seq_iter(eng, args[1])
    if args[0] == args[1]:
        return args[1]
    if b1 is None or b1 != b2:
        return None
    pred = predicate(eng, fn)
    w = eng.fresh(st, fr, ins, 'w')
    args = eng.args(st)
    b1, i1 = seq_iter(eng, args[0])
    b2, i2 = seq_iter(eng, args[1])
    eng.emit('remove_if', st, b1, pred, args)
    # case 1: nothing matched
    s2 = eng.fork(st)
    r2 = args[1]
    # case 2: some element matched; the predicate is evaluated on it
    if not eng.assume(st, mk_ult(w, i2), True):
        return Fork([(s2, r2)])
    res = ('p', eng.elem(b1, w), 0)
    if not pred:
        return Fork([(s2, r2), (st, res)])
    m = eng.fresh(st, fr, ins, 'm')
    args = eng.args(st)
    el = ('p', eng.elem(b1, m), 0)
    clo = closure_arg(eng, st, fr, ins, args[2])
    nframe(eng, st, remove_if_done, (res,), fn)
    eng.call(st, pred, [clo, el])
    return Fork([(s2, r2), (st, CALLED)])


def remove_if_done(eng, st, nf, ret):
    t = ret if ret[0] in ('i', 'n', 't') else ('t', 'b', ret)
    eng.emit('removed', st, nf.data[0], t)
    if not eng.assume(st, t, True):
        return DEAD
    return nf.data[0]


# ---------------------------------------------------------------- associative containers
HASH = ('std::unordered_map', 'std::unordered_set', 'std::unordered_multimap')
TREE = ('std::map', 'std::set', 'std::multimap')
NODE_OFF = {'std::unordered_map': 8, 'std::unordered_set': 8, 'std::map': 32, 'std::set': 32}


def assoc(*bases):
    def deco(f):
        for c in HASH + TREE:
            for b in bases:
                METHOD[c, b] = f
        return f
    return deco


def is_hash(fn):
    return fn.cls in HASH


def map_types(fn):
    t = targs(fn.ctx)
    return t[0], (t[1] if fn.cls in ('std::unordered_map', 'std::map') else None)


def slot(fn, a):
    """cell of the container that holds its buffer pointer"""
    return (a[0], a[1] + (0 if is_hash(fn) else 16))


def map_end(fn, a, eng):
    return ZERO if is_hash(fn) else eng.mkptr(a[0], a[1] + 8)


def mapbuf(eng, st, fr, ins, fn, a):
    """buffer object of the container at a (created on demand)"""
    o, f = slot(fn, a)
    t = map_types(fn)
    v = eng.read(st, o, f, 8, fr, ins)
    if v[0] == 'p':
        buf = v[1]
    elif v[0] in ('s', 't'):
        buf = OBJ(('*', v))
        eng.bufowner[buf] = (o, f)
    else:
        buf = OBJ(('H', fr.ctx, ins[1]))
        eng.define_obj(st, buf)
        st.mem[buf] = Cells({'S': (ZERO, 8), 'keys': (('agg', ()), 0)})
        eng.write(st, o, f, ('p', buf, 0), 8)
        eng.bufowner[buf] = (o, f)
    if 'S' not in eng.cells(st, buf):
        eng.raw_write(st, buf, 'S', sym(('I', buf, 'S')), 8)
    return buf


def msize(eng, st, buf):
    return eng.cells(st, buf)['S'][0]


def set_msize(eng, st, buf, s):
    eng.raw_write(st, buf, 'S', s, 8)


def node(eng, fn, buf, key):
    ko = 8 if is_hash(fn) else 32
    o = OBJ(('nd', buf, key, ko))
    return o


def node_iter(eng, fn, buf, key):
    return ('p', node(eng, fn, buf, key), 0)


def has(buf, key):
    return ('t', 'has', ('p', buf, 0), key)


def known_keys(eng, st, buf):
    """the keys of a map all of whose insertions were seen, or None"""
    ks = eng.cells(st, buf).get('keys')
    return None if ks is None else ks[0][1]


def member(eng, st, buf, key):
    """is key in the container: True/False/None"""
    t = eng.truth(st, has(buf, key))
    if t is not None:
        return t
    if eng.truth(st, mk_eq(msize(eng, st, buf), ZERO)):
        return False
    ks = known_keys(eng, st, buf)
    if ks is not None:
        # all keys are known
        unknown = False
        for k in ks:
            e = eng.truth(st, mk_eq(k, key))
            if e:
                return True
            if e is None:
                unknown = True
        if not unknown:
            return False
    return None


def load_key(eng, st, fr, ins, fn, p):
    a = eng.addr(p)
    if a is None:
        return UNDEF
    t = map_types(fn)[0]
    if OBJ.keys[a[0]][0] != 'A':
        access(eng, st, a, 8, False)
    v = eng.read(st, a[0], a[1], eng.prog.sizeof(t) or 8, fr, ins)
    return v


def split(eng, st, buf, key):
    """[(state, present)] by membership of key"""
    m = member(eng, st, buf, key)
    if m is not None:
        return [(st, m)]
    s2 = eng.fork(st)
    res = []
    p = has(buf, key)
    if eng.assume(s2, p, False):
        res.append((s2, False))
    ok = eng.assume(st, p, True) and eng.assume(st, mk_eq(msize(eng, st, buf), ZERO), False)
    if ok:
        res.append((st, True))
    return res


def map_access(eng, st, fn, a, write):
    access(eng, st, a, 56 if is_hash(fn) else 48, write)
    if write and eng.shared(st, a[0]):
        f = eng.owner_field(*a)[0]
        if f:
            eng.seen_written.add(f)


@assoc('find', 'count', 'contains', 'at', 'lower_bound', 'equal_range')
def map_find(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    map_access(eng, st, fn, a, False)
    key = load_key(eng, st, fr, ins, fn, args[1])
    buf = mapbuf(eng, st, top(st), ins, fn, a)
    eng.emit('find', st, a, buf, key)
    eng.emit('key', st, a, buf, key)
    alts = []
    for s, t in split(eng, st, buf, key):
        args = eng.args(s)
        a = eng.addr(args[0])
        key2 = load_key(eng, s, top(s), ins, fn, args[1])
        if fn.base == 'find':
            r = node_iter(eng, fn, buf, key2) if t else map_end(fn, a, eng)
        elif fn.base == 'at':
            r = ('p', node(eng, fn, buf, key2), val_off(eng, fn)) if t else throw(s, '_ZTISt12out_of_range')
        elif fn.base in ('count', 'contains'):
            r = ONE if t else ZERO
        else:
            return None
        eng.tr(s, 'lookup: %s' % ('found' if t else 'not found'))
        alts.append((s, r))
    return Fork(alts)


def val_off(eng, fn):
    k, v = map_types(fn)
    base = 8 if is_hash(fn) else 32
    ks = eng.prog.sizeof(k) or 8
    # the mapped value is aligned to a word
    return base + (ks + 7) // 8 * 8


@assoc('size')
def map_size(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    map_access(eng, st, fn, a, False)
    return msize(eng, st, mapbuf(eng, st, fr, ins, fn, a))


@assoc('empty')
def map_empty(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    map_access(eng, st, fn, a, False)
    return mk_eq(msize(eng, st, mapbuf(eng, st, fr, ins, fn, a)), ZERO)


@assoc('end', 'cend')
def map_end_m(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    return map_end(fn, a, eng)


@assoc('reserve', 'rehash', 'max_load_factor')
def map_reserve(eng, st, fr, ins, fn, args):
    map_access(eng, st, fn, eng.addr(args[0]), True)
    return VOID


@assoc('begin', 'cbegin')
def map_begin(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    map_access(eng, st, fn, a, False)
    buf = mapbuf(eng, st, fr, ins, fn, a)
    eng.notes_nodes[buf] = (fn, a)
    s = msize(eng, st, buf)
    ks = known_keys(eng, st, buf)
    if ks is not None and len(ks) <= 1:
        if not ks:
            eng.emit('iterend', st, a, buf)
            return map_end(fn, a, eng)
        return node_iter(eng, fn, buf, ks[0])
    return next_node(eng, st, ins, fn, a, buf, mk_eq(s, ZERO))


def next_node(eng, st, ins, fn, a, buf, endcond):
    k = eng.fresh(st, top(st), ins, 'k')
    alts = []
    s2 = eng.fork(st)
    if endcond is None or eng.assume(s2, endcond, True):
        eng.emit('iterend', s2, a, buf)
        alts.append((s2, map_end(fn, eng.map_addr(s2, buf) or a, eng)))
    if endcond is None or eng.assume(st, endcond, False):
        eng.assume(st, has(buf, k), True)
        eng.assume(st, mk_eq(msize(eng, st, buf), ZERO), False)
        eng.emit('iterate', st, a, buf, k)
        alts.append((st, node_iter(eng, fn, buf, k)))
    return Fork(alts)


def incr(eng, st, fr, ins, v):
    """successor of the iterator value v"""
    if v[0] != 'p' or OBJ.keys[v[1]][0] != 'nd':
        return None
    buf = OBJ.keys[v[1]][1]
    if buf not in eng.notes_nodes:
        return None
    fn, a = eng.notes_nodes[buf]
    ks = known_keys(eng, st, buf)
    if ks is not None and len(ks) <= 1:
        return map_end(fn, a, eng)
    return buf, fn, a


@method('std::__detail::_Node_iterator', 'operator++')
@method('std::__detail::_Node_const_iterator', 'operator++')
@method('std::_Rb_tree_iterator', 'operator++')
@method('std::_Rb_tree_const_iterator', 'operator++')
def iter_incr(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    if fn.sret == 0 or len(args) > 2:
        return None
    post = len(args) == 2
    v = eng.read(st, a[0], a[1], 8, fr, ins)
    r = incr(eng, st, fr, ins, v)
    if r is None:
        eng.note('increment of an unknown iterator in %s' % fr.fn.short())
        return DEAD
    if not isinstance(r, tuple) or r[0] in ('i', 'p', 's'):
        if v[0] == 'p' and OBJ.keys[v[1]][0] == 'nd':
            b = OBJ.keys[v[1]][1]
            eng.emit('iterend', st, eng.notes_nodes[b][1], b)
        eng.write(st, a[0], a[1], r, 8)
        return v if post else args[0]
    buf, mfn, ma = r
    k = eng.fresh(st, top(st), ins, 'k')
    args = eng.args(st)
    a = eng.addr(args[0])
    v = eng.read(st, a[0], a[1], 8, fr, ins)
    buf = OBJ.keys[v[1]][1] if v[0] == 'p' and OBJ.keys[v[1]][0] == 'nd' else buf
    s2 = eng.fork(st)
    eng.emit('iterend', s2, ma, buf)
    eng.write(s2, a[0], a[1], map_end(mfn, ma, eng), 8)
    eng.assume(st, has(buf, k), True)
    eng.emit('iterate', st, ma, buf, k)
    eng.write(st, a[0], a[1], node_iter(eng, mfn, buf, k), 8)
    res = v if post else args[0]
    return Fork([(s2, res), (st, res)])


def value_dtor(eng, fn):
    k, v = map_types(fn)
    if v is None:
        return eng.prog.find_dtor(k), 0
    d = eng.prog.find_dtor('std::pair<%s const, %s>' % (k, v))
    if d:
        return d, 0
    d = eng.prog.find_dtor(v)
    if d:
        return d, val_off(eng, fn) - (8 if is_hash(fn) else 32)
    return None, 0


def destroy_node(eng, st, fn, buf, key):
    """call the destructor of the element; True if a frame was pushed"""
    d, off = value_dtor(eng, fn)
    if not d:
        return False
    eng.call(st, d, [('p', node(eng, fn, buf, key), (8 if is_hash(fn) else 32) + off)])
    return True


@assoc('erase')
def map_erase(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    map_access(eng, st, fn, a, True)
    buf = mapbuf(eng, st, fr, ins, fn, a)
    if 'iterator' in fn.ret_type() or '_iterator<' in fn.dem[fn.dem.rfind('erase('):]:
        # erase(position) -> next position
        v = args[1]
        if v[0] != 'p' or OBJ.keys[v[1]][0] != 'nd':
            pa = eng.addr(v)
            x = eng.read(st, pa[0], pa[1], 8, fr, ins) if pa and OBJ.keys[pa[0]][0] == 'A' else UNDEF
            v = x
        if v[0] != 'p' or OBJ.keys[v[1]][0] != 'nd':
            eng.note('erase at an unknown position in %s' % fr.fn.short())
            return DEAD
        key = OBJ.keys[v[1]][2]
        eng.notes_nodes.setdefault(buf, (fn, a))
        return do_erase(eng, st, fr, ins, fn, a, buf, key, 'pos')
    key = load_key(eng, st, fr, ins, fn, args[1])
    eng.emit('erase_key', st, a, buf, key)
    alts = []
    for s, t in split(eng, st, buf, key):
        if not t:
            alts.append((s, ZERO))
            continue
        args = eng.args(s)
        a = eng.addr(args[0])
        key2 = load_key(eng, s, top(s), ins, fn, args[1])
        alts.append((s, do_erase(eng, s, top(s), ins, fn, a, buf, key2, 'key')))
    return Fork(alts)


def do_erase(eng, st, fr, ins, fn, a, buf, key, mode):
    eng.emit('map_erase', st, a, buf, key)
    eng.tr(st, 'erase from %s' % (eng.field(*a) or 'map'))
    nframe(eng, st, erased, (('#o', a[0], a[1]), ('#o', buf), key, mode), fn)
    if destroy_node(eng, st, fn, buf, key):
        return CALLED
    nf = st.frames.pop()
    return erased(eng, st, nf, VOID)


def erased(eng, st, nf, ret):
    (_, o, f), (_, buf), key, mode = nf.data
    fn = nf.fn
    fr = top(st)
    ins = fr.ins()
    st.facts = dict(st.facts)
    st.facts[has(buf, key)] = False
    if 'S' not in eng.cells(st, buf):
        eng.raw_write(st, buf, 'S', sym(('I', buf, 'S')), 8)
    set_msize(eng, st, buf, eng.arith('add', msize(eng, st, buf), ('i', mask(-1, 8)), 8))
    ks = known_keys(eng, st, buf)
    if ks is not None:
        left = tuple(k for k in ks if mk_eq(k, key) != ONE)
        eng.raw_write(st, buf, 'keys', ('agg', left), 0)
    st.mem.pop(node(eng, fn, buf, key), None)
    if mode == 'key':
        return ONE
    if ks is not None and len(ks) <= 1:
        eng.emit('iterend', st, (o, f), buf)
        return map_end(fn, (o, f), eng)
    k = eng.fresh(st, fr, ins, 'k')
    s2 = eng.fork(st)
    eng.emit('iterend', s2, (o, f), buf)
    eng.assume(st, has(buf, k), True)
    eng.emit('next', st, (o, f), buf, k)
    return Fork([(s2, map_end(fn, (o, f), eng)), (st, node_iter(eng, fn, buf, k))])


@assoc('emplace', 'insert', 'try_emplace', 'operator[]', 'insert_or_assign', 'emplace_hint')
def map_emplace(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    map_access(eng, st, fn, a, True)
    if fn.base == 'insert' and len(args) == 2:
        # insert(pair): the key is its first word
        pass
    key = load_key(eng, st, fr, ins, fn, args[1])
    buf = mapbuf(eng, st, top(st), ins, fn, a)
    eng.emit('key', st, a, buf, key)
    alts = []
    for s, t in split(eng, st, buf, key):
        args = eng.args(s)
        key2 = load_key(eng, s, top(s), ins, fn, args[1])
        if t:
            eng.emit('map_hit', s, a, buf, key2)
            alts.append((s, emplaced_value(eng, fn, buf, key2, False)))
        else:
            alts.append((s, do_emplace(eng, s, top(s), ins, fn, a, buf, key2, args)))
    return Fork(alts)


def emplaced_value(eng, fn, buf, key, inserted):
    if fn.base == 'operator[]':
        return ('p', node(eng, fn, buf, key), val_off(eng, fn))
    return ('agg', (node_iter(eng, fn, buf, key), ONE if inserted else ZERO))


def do_emplace(eng, st, fr, ins, fn, a, buf, key, args):
    eng.emit('map_insert', st, a, buf, key)
    eng.tr(st, 'insert into %s' % (eng.field(*a) or 'map'))
    st.facts = dict(st.facts)
    st.facts[has(buf, key)] = True
    set_msize(eng, st, buf, eng.arith('add', msize(eng, st, buf), ONE, 8))
    ks = known_keys(eng, st, buf)
    if ks is not None:
        if len(ks) < 2:
            eng.raw_write(st, buf, 'keys', ('agg', ks + (key,)), 0)
        else:
            c = Cells(st.mem[buf])
            del c['keys']
            st.mem[buf] = c
    n = node(eng, fn, buf, key)
    ko = 8 if is_hash(fn) else 32
    vo = val_off(eng, fn)
    k, v = map_types(fn)
    st.mem[n] = Cells({ko: (key, eng.prog.sizeof(k) or 8)})
    if fn.base == 'operator[]':
        vs = eng.prog.sizeof(v)
        if vs is None:
            raise CheckError('unknown size of %s' % v)
        eng.add_range(st, n, vo, vo + vs, 0)
        c = default_ctor(eng, v)
        nframe(eng, st, emplace_done, (('#o', buf), key), fn)
        if c:
            eng.call(st, c, [('p', n, vo)])
            return CALLED
        st.frames.pop()
        return emplaced_value(eng, fn, buf, key, True)
    c = callee_named(eng, fn, lambda g: g.base == 'construct' and g.cls.startswith('std::allocator_traits')
                     and g.nargs == len(args) + 1 and 'std::pair' in g.dem, 9)
    if not c:
        eng.note('no element constructor found for %s' % fn.short())
        return emplaced_value(eng, fn, buf, key, True)
    nframe(eng, st, emplace_done, (('#o', buf), key), fn)
    eng.call(st, c, [UNDEF, ('p', n, ko)] + list(args[1:]))
    return CALLED


def emplace_done(eng, st, nf, ret):
    (_, buf), key = nf.data
    return emplaced_value(eng, nf.fn, buf, key, True)


def default_ctor(eng, t):
    last = strip_targs(t).split('::')[-1]
    for f in eng.prog.fns.values():
        if f.ctx == t and f.base == last and f.nargs == 1 and not f.decl:
            return f
    return None


@assoc('clear')
def map_clear(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    map_access(eng, st, fn, a, True)
    buf = mapbuf(eng, st, fr, ins, fn, a)
    eng.emit('map_clear', st, a, buf)
    return clear_nodes(eng, st, fr, ins, fn, a, buf, 'clear')


def clear_nodes(eng, st, fr, ins, fn, a, buf, mode):
    """destroy an arbitrary element if there can be one"""
    s = msize(eng, st, buf)
    if eng.truth(st, mk_eq(s, ZERO)):
        return cleared(eng, st, NFrame(cleared, (('#o', a[0], a[1]), ('#o', buf), mode), 0, fn), VOID)
    d, off = value_dtor(eng, fn)
    s2 = eng.fork(st)
    alts = []
    if eng.assume(s2, mk_eq(s, ZERO), True):
        alts.append((s2, cleared(eng, s2, NFrame(cleared, (('#o', a[0], a[1]), ('#o', buf), mode), 0, fn), VOID)))
    if eng.assume(st, mk_eq(s, ZERO), False):
        ks = known_keys(eng, st, buf)
        if ks:
            key = ks[0]
        else:
            key = eng.fresh(st, fr, ins, 'k')
            eng.assume(st, has(buf, key), True)
        nframe(eng, st, cleared, (('#o', a[0], a[1]), ('#o', buf), mode), fn)
        if destroy_node(eng, st, fn, buf, key):
            alts.append((st, CALLED))
        else:
            nf = st.frames.pop()
            alts.append((st, cleared(eng, st, nf, VOID)))
    return Fork(alts)


def cleared(eng, st, nf, ret):
    (_, o, f), (_, buf), mode = nf.data
    so, sf = slot(nf.fn, (o, f))
    eng.write(st, so, sf, ZERO, 8)
    c = st.mem.get(so)
    return VOID


@assoc('~unordered_map', '~map', '~set', '~unordered_set')
def map_dtor(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    buf = mapbuf(eng, st, fr, ins, fn, a)
    eng.emit('map_dtor', st, a, buf)
    return clear_nodes(eng, st, fr, ins, fn, a, buf, 'dtor')


@assoc('unordered_map', 'map', 'set', 'unordered_set')
def map_ctor(eng, st, fr, ins, fn, args):
    a = eng.addr(args[0])
    so, sf = slot(fn, a)
    if len(args) == 2 and fn.dem.endswith('&&)'):
        b = eng.addr(args[1])
        move_map(eng, st, fr, ins, fn, a, b)
        return VOID
    eng.write(st, so, sf, ZERO, 8)
    if len(args) > 1:
        # copies, initializer lists, ranges: unknown contents
        buf = OBJ(('H', fr.ctx, ins[1], 'lazy'))
        eng.define_obj(st, buf)
        a = eng.addr(eng.args(st)[0])
        so, sf = slot(fn, a)
        st.mem[buf] = Cells({'S': (sym(('I', buf, 'S')), 8)})
        eng.write(st, so, sf, ('p', buf, 0), 8)
        eng.bufowner[buf] = (so, sf)
    return VOID


def move_map(eng, st, fr, ins, fn, a, b):
    map_access(eng, st, fn, b, True)
    buf = mapbuf(eng, st, fr, ins, fn, b)
    so, sf = slot(fn, a)
    eo, ef = slot(fn, b)
    eng.write(st, so, sf, ('p', buf, 0) if OBJ.keys[buf][0] != '*' else OBJ.keys[buf][1], 8)
    eng.owner_moved(st, so, sf, ('p', buf, 0))
    if eng.shared(st, b[0]):
        f = eng.owner_field(*b)[0]
        if f:
            eng.seen_written.add(f)
    eng.write(st, eo, ef, ZERO, 8)
    eng.emit('map_move', st, b, a)


@assoc('operator=', 'swap')
def map_assign(eng, st, fr, ins, fn, args):
    a, b = eng.addr(args[0]), eng.addr(args[1])
    map_access(eng, st, fn, a, True)
    if fn.base == 'swap':
        so, sf = slot(fn, a)
        eo, ef = slot(fn, b)
        map_access(eng, st, fn, b, True)
        x = ('p', mapbuf(eng, st, fr, ins, fn, a), 0)
        y = ('p', mapbuf(eng, st, top(st), ins, fn, b), 0)
        eng.write(st, so, sf, y, 8)
        eng.write(st, eo, ef, x, 8)
        eng.owner_moved(st, so, sf, y)
        eng.owner_moved(st, eo, ef, x)
        eng.emit('map_move', st, a, b)
        eng.emit('map_move', st, b, a)
        return VOID
    if fn.dem.endswith('&&)'):
        old = mapbuf(eng, st, fr, ins, fn, a)
        nframe(eng, st, assign_done, (('#o', a[0], a[1]), ('#o', b[0], b[1])), fn)
        eng.note('map move assignment')
        nf = st.frames.pop()
        return assign_done(eng, st, nf, VOID)
    eng.note('map copy assignment')
    return args[0]


def assign_done(eng, st, nf, ret):
    (_, o, f), (_, o2, f2) = nf.data
    fr = top(st)
    move_map(eng, st, fr, fr.ins(), nf.fn, (o, f), (o2, f2))
    return eng.mkptr(o, f)
