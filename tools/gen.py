#!/usr/bin/env python3-vt
"""writes /verif/properties.jsonl and /verif/MANIFEST.json"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, V + '/lnv')
sys.path.insert(0, HERE)
import props
import contracts.registry as R
from contracts.base import REG
checks = []
na = {x['property'] for x in props.NA}
props.P.sort(key=lambda q: q['id'])
for q in props.P:
    pid = q['id']
    assert len(q['title']) <= 80, pid
    if pid in na:
        continue
    r = R.PROPS[pid]
    nat = [n for n in r['contracts'] if REG[n].native_only]
    unb = [n for n in r['contracts'] if REG[n].unbounded]
    tech = 'deductive verification: contracts on the extracted C++ functions, VCs by symbolic execution, discharged by polynomial identity / sign / z3; failures replayed on the compiled code'
    note = 'All real-valued inputs of the precondition, every path of the real code, in exact real arithmetic; '
    if len(unb) == len(r['contracts']):
        note += 'no bound on the inputs.'
    else:
        note += 'bounded in shape (enumerated degrees, multiplicity patterns, grid sizes), hence not claimed as an unbounded proof.'
        if unb:
            note += ' Unbounded: ' + ', '.join(unb) + '.'
    if nat:
        note += ' Bounded concrete stand-ins (not proved): ' + ', '.join(nat) + '.'
    note += ' Floating-point rounding is outside the obligations; trusted: clang AST, lnv executor (sampled against the compiled code on each run), z3.'
    checks.append({'property': pid, 'quick_cmd': 'python3-vt lnv/check.py %s --tier quick' % pid, 'thorough_cmd': 'python3-vt lnv/check.py %s --tier thorough' % pid,
                   'technique': tech, 'level': r['level'], 'level_note': note})
with open(V + '/properties.jsonl', 'w') as f:
    for q in props.P:
        f.write(json.dumps(q) + '\n')
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': props.NA,
     'notes': 'No hooks in /repo: the functions are extracted mechanically from the sources on every run. See DESIGN.md.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(props.NA), 'n/a')
miss = set(R.PROPS) - {q['id'] for q in props.P}
assert not miss, miss
