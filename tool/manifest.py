#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from itcsa.rules import RULES, NOT_APPLICABLE      # noqa: E402

props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    r = RULES.get(p)
    if r:
        checks.append(dict(
            property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py ' + p,
            evidence_file='evidence/%s.json' % p,
            technique='static analysis: abstract interpretation of the LLVM IR of the current tree; ' + r.title,
            level='other',
            level_note='All paths of all roots to a fixpoint over abstract states; sound up to the stated models and '
                       'assumptions (DESIGN.md), nothing is executed.'))
    else:
        na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'no sufficiently precise static rule yet (see DESIGN.md)')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print('%d checks, %d not applicable' % (len(checks), len(na)))
