"""Analysis roots: the public entry points instantiated by the driver, every stored
callable (as run from a queue) and every thread body."""
from .program import CheckError, strip_targs, targs
from .engine import OBJ, SYM, CTX, Frame, St, sym, ZERO


def is_shared_type(prog, t, seen=None):
    """does the type contain a lock or an atomic, i.e. is it meant to be used by several threads at once?"""
    t = t.replace('const ', '').replace('struct ', '').replace('class ', '').strip()
    while t and t[-1] in '&* ':
        t = t[:-1]
    if t.endswith(' const'):
        t = t[:-6]
    seen = seen or set()
    if t in seen:
        return False
    seen.add(t)
    if t.startswith('std::atomic') or t in ('std::mutex', 'std::recursive_mutex', 'std::condition_variable'):
        return True
    if t.startswith('std::'):
        return False
    for r in prog.records.get(strip_targs(t), ()):
        if r['name'].replace(' ', '') == t.replace(' ', ''):
            for m in r['members']:
                if '*' in m[3] or '&' in m[3]:
                    continue
                if is_shared_type(prog, m[3], seen):
                    return True
    return False


def root_state(eng, fn, closure=False):
    st = St()
    fn.prepare()
    args = []
    dt = fn.ditypes[1:]
    off = 1 if fn.sret == 0 else 0
    for i in range(fn.nargs):
        ty = fn.argtys[i]
        if i == fn.sret:
            o = OBJ(('arg', i, False, ''))
            args.append(('p', o, 0))
            continue
        d = dt[i - off] if i - off < len(dt) else ''
        byval = any(b[0] == i for b in fn.byval)
        if ty == 'ptr' and (byval or d.endswith('&') or d.endswith('*') or not d):
            sh = False if byval else is_shared_type(eng.prog, d)
            tag = 'closure' if closure and i == 0 else ''
            o = OBJ(('arg', i, sh, tag))
            args.append(('p', o, 0))
        elif ty == 'ptr':
            args.append(sym(('I', OBJ(('arg', i, False, 'v')), 0)))
        else:
            args.append(sym(('I', OBJ(('arg', i, False, 'v')), 0)))
    eng.call(st, fn, args)
    return st


def entries(prog):
    res = [f for n, f in sorted(prog.fns.items()) if n.startswith('e_') and not f.decl]
    if len(res) < 100:
        raise CheckError('only %d driver entries found' % len(res))
    return res


def closures(prog):
    return [f for n, f in sorted(prog.fns.items())
            if f.cls == 'std::_Function_handler' and f.base == '_M_invoke' and not f.decl]


def thread_bodies(prog):
    return [f for n, f in sorted(prog.fns.items())
            if f.cls == 'std::thread::_State_impl' and f.base == '_M_run' and not f.decl]
