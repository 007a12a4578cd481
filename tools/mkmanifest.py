#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist (text-level, imports nothing)."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C20': 'Pure functions of their array arguments: no scheduling, clock, I/O, randomness or fault for a simulator to control can change their result, so seeded schedules and faults would decide nothing that plain input testing does not. Their re-entrancy and interrupt behaviour is simulated under C10 and C11.',
 'C21': 'Pure closed-form functions of their arguments without time, I/O, concurrency or history to simulate; only their re-entrancy and interrupt behaviour (C10, C11) is in reach of this technique.',
 'C22': 'A pure array-to-array transform without time, I/O, concurrency or history to simulate; only its re-entrancy and interrupt behaviour (C10, C11) is in reach of this technique.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    f = os.path.join(V, 'dst', 'props', p['id'].lower() + '.py')
    if p['id'] in NA:
        na.append({'property': p['id'], 'reason': NA[p['id']]})
    elif os.path.exists(f):
        consts = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                try:
                    consts[n.targets[0].id] = ast.literal_eval(n.value)
                except ValueError:
                    pass
        note = ('Seeded exploration: %d simulated runs (thorough: %d). Real: %s. Simulated: %s. Assumes: %s.'
                % (consts['RUNS']['quick'], consts['RUNS']['thorough'], '; '.join(consts['REAL']), '; '.join(consts['STUB']),
                   '; '.join(consts['ASSUMPTIONS'])))
        checks.append({'property': p['id'], 'quick_cmd': './check ' + p['id'],
                       'thorough_cmd': './check ' + p['id'],
                       'technique': consts.get('TECHNIQUE', 'deterministic simulation with fault injection, ledger/reference-model oracle'),
                       'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': p['id'], 'reason': 'Check not built yet.'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the seams are open/io.open/mmap, sys.settrace and threading, all reached from outside. '
              'The tier is taken from VERIF_TIER, the seed from VERIF_SEED. ./check replay FILE reproduces a violation.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
