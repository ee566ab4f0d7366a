#!/usr/bin/env python3
"""Decides one property of the repository's current source: check.py <property id>"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from itcsa import program, run            # noqa: E402
from itcsa.program import CheckError      # noqa: E402
from itcsa.roles import Roles             # noqa: E402
from itcsa.rules import RULES             # noqa: E402
from itcsa.rules.base import Invariants      # noqa: E402
from collections import Counter           # noqa: E402


class Conclusion:
    """what all roots together say"""

    def __init__(self, prog, roles, cls, results):
        self.prog, self.roles, self.cls = prog, roles, cls
        self.n = Counter()
        self.data = []
        self.byroot = {}
        self.violations = []
        self.extra = {}
        seen = set()
        for r in results:
            n, d = r['rules'][-1]
            self.n.update(n)
            self.data.extend(d)
            self.byroot.setdefault(r['root'], []).append((n, d))
            for v in r['violations']:
                k = (v['message'], v['where'])
                if v['property'] == cls.id and k not in seen:
                    seen.add(k)
                    self.violations.append(v)

    def count(self, kind):
        return sum(v for k, v in self.n.items() if k == kind or isinstance(k, tuple) and k and k[0] == kind)

    def need(self, kind, least=1):
        c = self.count(kind)
        if c < least and not self.violations:
            raise CheckError('only %d instances of "%s" found (at least %d expected): the analysis lost its subject'
                             % (c, kind, least))

    def violate(self, message, where='?', entry='?', trace=(), stack=()):
        self.violations.append(dict(property=self.cls.id, message=message, where=where, entry=entry,
                                    stack=list(stack), trace=list(trace)))


def known_findings(pid):
    res = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                res.append(l.split(' ', 2)[2])
    return res


def main():
    pid = sys.argv[1]
    t0 = time.time()
    cls = RULES.get(pid)
    if cls is None:
        print('no rule for %s' % pid)
        return 2
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    prog = program.load()
    survey = run.survey(prog)
    written = set()
    for r in survey:
        written |= r['written']
    roles = Roles(prog, survey)
    known = known_findings(pid)
    results = []
    for mode in cls.modes:
        def make():
            r = cls(roles)
            r.mode = mode
            return [Invariants(roles), r], written
        results += run.explore(prog, make, cls.only, None if os.environ.get('ITCSA_ALL') else known)
    c = Conclusion(prog, roles, cls, results)
    cls.finish(c)
    fresh = []
    for v in c.violations:
        if v['message'] in known:
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, v['message'], v['where']))
        else:
            fresh.append(v)
    stats = Counter()
    fns = set()
    for r in results:
        stats.update(r['stats'])
        fns |= r['fns']
    repo_fns = sorted(f for f in fns if prog.fns[f].repo)
    ev = dict(property=pid, tier=os.environ.get('VERIF_TIER', 'quick'), seed=int(os.environ.get('VERIF_SEED', '1')),
              level='other',
              coverage=dict(
                  explanation='Abstract interpretation of the LLVM IR of the current tree, rule: %s. Every path of every '
                  'root (public entry points instantiated in driver/driver.cpp, all stored callables, all thread bodies) '
                  'was followed to a fixpoint.' % cls.title,
                  rule=cls.title,
                  source_files=program.sources(),
                  roots=len(results), repository_functions=len(repo_fns), functions=len(fns),
                  states=stats['states'], instructions=stats['insts'], paths=stats['paths'], merged=stats['merged'],
                  instances={' / '.join(map(str, k)) if isinstance(k, tuple) else k: v for k, v in sorted(c.n.items(), key=str)},
                  **c.extra),
              assumptions=['memory exhaustion and standard library failures are out of scope',
                           'standard library semantics as modelled in itcsa/models.py',
                           'user callables may call any library function, block, or throw'],
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(os.path.join(evdir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d roots, %d repository functions, %d states, %d paths, %.1f s'
          % (pid, len(results), len(repo_fns), stats['states'], stats['paths'], time.time() - t0))
    for k, v in sorted(c.n.items(), key=str):
        print('  %s: %d' % (' / '.join(map(str, k)) if isinstance(k, tuple) else k, v))
    if fresh:
        rp = os.path.join(evdir, pid + '.violation.txt')
        with open(rp, 'w') as f:
            for v in fresh:
                f.write('%s\n  at %s\n  root %s\n' % (v['message'], v['where'], v['entry']))
                for s in v['stack']:
                    f.write('    in %s\n' % s)
                for s in v['trace']:
                    f.write('      %s\n' % s)
                f.write('\n')
        for v in fresh[:20]:
            print('  %s\n    at %s, root %s' % (v['message'], v['where'], v['entry'][:100]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        # the same run every time
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    try:
        rc = main()
    except CheckError as e:
        print('ANALYSIS ERROR: %s' % e)
        rc = 2
    sys.exit(rc)
