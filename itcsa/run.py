"""Runs the interpreter over all analysis roots, in parallel, with a set of rules."""
import glob
import hashlib
import multiprocessing as mp
import os
import pickle
import traceback

from . import engine, program, roots
from .program import CheckError

PROG = MAKE = KNOWN = None


def all_roots(prog):
    return [(f, False) for f in roots.entries(prog)] + \
           [(f, True) for f in roots.closures(prog) + roots.thread_bodies(prog)]


def _one(x):
    name, closure = x
    fn = PROG.fns[name]
    try:
        rules, written = MAKE()
        eng = engine.Engine(PROG, rules, written)
        eng.root = name
        eng.known = KNOWN
        try:
            st = roots.root_state(eng, fn, closure)
            for r in rules:
                r.start(st)
            eng.explore(st, name)
        except engine.Found:
            pass
        return dict(root=name, error=None, stats=eng.stats, notes=eng.notes, unmodelled=eng.unmodelled,
                    written=eng.seen_written, fns=eng.fns_seen, violations=list(eng.violations.values()),
                    rules=[(r.n, r.data) for r in rules])
    except CheckError as e:
        return dict(root=name, error=str(e))
    except Exception as e:       # an error of the check, never a verdict
        tb = traceback.extract_tb(e.__traceback__)
        return dict(root=name, error='%s: %s at %s' % (type(e).__name__, e, [(t.name, t.lineno) for t in tb[-4:]]))


def explore(prog, make, only=None, known=None):
    """make() -> (rules, written); results per root, up to the first violation not known"""
    global PROG, MAKE, KNOWN
    PROG, MAKE, KNOWN = prog, make, known
    todo = [(f.name, c) for f, c in all_roots(prog) if only is None or only(f)]
    # the long ones first
    todo.sort(key=lambda x: (not x[0].startswith('e_pool'), not x[0].startswith('e_when'), x[0]))
    n = int(os.environ.get('ITCSA_JOBS', '8'))
    res = []
    if n == 1:
        res = [_one(x) for x in todo]
    else:
        with mp.get_context('fork').Pool(n) as pool:
            for r in pool.imap_unordered(_one, todo):
                res.append(r)
                if known is not None and not r['error'] and any(v['message'] not in known for v in r['violations']):
                    break
    res.sort(key=lambda r: r['root'])
    bad = [r for r in res if r['error']]
    if bad:
        raise CheckError('; '.join('%s: %s' % (r['root'], r['error']) for r in bad[:4]))
    return res


def survey(prog):
    """first pass: which fields each root touches. It depends on nothing but the source and the
    analysis, so checks running after each other on the same tree share it."""
    from .rules.base import Survey
    h = hashlib.sha256(program.tree_hash().encode())
    for f in sorted(glob.glob(os.path.join(program.VERIF, 'itcsa', '*.py'))) + \
            [os.path.join(program.VERIF, 'itcsa', 'rules', 'base.py')]:
        h.update(open(f, 'rb').read())
    key = h.hexdigest()
    path = os.path.join(program.BUILD, 'survey.pickle')
    try:
        with open(path, 'rb') as f:
            k, res = pickle.load(f)
        if k == key:
            return res
    except Exception:
        pass
    res = explore(prog, lambda: ([Survey()], None))
    tmp = path + '.%d' % os.getpid()
    with open(tmp, 'wb') as f:
        pickle.dump((key, res), f)
    os.replace(tmp, path)
    return res
