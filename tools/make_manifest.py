#!/usr/bin/env python3
"""writes MANIFEST.json for the properties that have a module in props/"""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(line)['id'] for line in open(os.path.join(here, 'properties.jsonl'))]
NA = {}
NOTE = ('Bounded: every path of the real code on inputs of the stated shape (sizes, dates and the concrete cells are '
        'in the evidence under coverage.bounds) is explored and each assertion is discharged by normal form or by z3 '
        'for all values of the symbolic inputs. Trusts z3, the modelling of float64 by reals, the axioms for '
        'transcendental functions and the numpy/pandas stand-ins, which are validated on every run by pushing path '
        'witnesses through the encoding and the unpatched code. Counterexamples are replayed on the unpatched code.')
EXTRA = {
    'C30': ' Numbers cross the JSON text as opaque tokens.',
    'C31': ' Numbers cross the file text as opaque tokens; formatting is modelled by its rounding bound.',
    'C32': ' Numbers cross the file text as opaque tokens.',
    'C34': ' The optimisers of scipy are symmetric functions of their data during symbolic runs, real in replays.',
    'C35': ' The optimisers of scipy are symmetric functions of their data during symbolic runs, real in replays.',
}
checks = []
for i in ids:
    if os.path.exists(os.path.join(here, 'props', i.lower() + '.py')):
        cmd = '/opt/venv/bin/python check.py %s --tier %s'
        checks.append(dict(
            property=i, quick_cmd=cmd % (i, 'quick'), thorough_cmd=cmd % (i, 'thorough'),
            evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the real Python code with z3, counterexamples replayed',
            level='model_checking', level_note=NOTE + EXTRA.get(i, '')))
    elif i not in NA:
        NA[i] = 'no check built yet'
m = dict(version=1, setup_cmd='/opt/venv/bin/python check.py --selftest', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='See DESIGN.md. All checks import /repo (or $VERIF_REPO) directly; nothing is built or cached.')
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
