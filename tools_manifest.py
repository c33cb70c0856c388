"""Writes MANIFEST.json from the checks in rv/checks."""
import json
import os

TECH = {
    'C01': 'online trace monitor of the training loop over scripted master/pricing objects',
    'C02': 'trace monitor with a virtual clock over scripted master/pricing objects',
    'C03': 'event counting and virtual clock accounting over scripted master/pricing objects',
    'C04': 'hostile input workloads with exception and input-modification monitors',
    'C05': 'workloads over label types with a label/rule oracle on observed predictions',
    'C06': 'differential runtime monitoring (round trips, refit versus fresh model)',
    'C07': 'runtime comparison of predictions with an independent DNF oracle',
    'C08': 'dual certificate checking of recorded master solves against an independent LP',
    'C09': 'recorded pricing calls checked against exhaustive enumeration',
    'C10': 'recorded pricing calls checked against exhaustive enumeration',
    'C11': 'recorded final master value checked against an independent LP over all clauses',
    'C12': 'recorded trainings checked against an independent integer programming oracle',
    'C13': 'runtime comparison with an independent binary-tree routing oracle',
    'C14': 'invariant monitor of trained trees and routing oracle for predictions',
    'C15': 'invariant monitor of every path recorded during training',
    'C16': 'recorded pricing calls checked against exhaustive enumeration of paths',
    'C17': 'recorded heuristic calls checked against exhaustive enumeration of paths',
    'C18': 'dual certificate checking of recorded master solves against an independent LP',
    'C19': 'hook on the LP solver: every constraint added during cut rounds is checked',
    'C20': 'recorded trainings checked against exact tree and assembly oracles',
    'C21': 'recorded preprocessing compared with an independent routing oracle',
    'C22': 'runtime comparison of imported trees with an independent CART traversal',
    'C23': 'monitored runs of the experiment command, result files audited against captured models',
    'C24': 'runtime comparison with exact rational statistics',
    'C25': 'online trace checker of the tuner against its policy specification',
    'C26': 'stub solver recording what each tuned solve does, with a scoring oracle',
    'C27': 'interleaved-model workloads with object snapshots',
    'C28': 'fault injection into the solvers with guarantee monitors',
}
NOTE = ('Held on the executions of this run (bounded problem sizes, seeded '
        'random workloads); nothing is claimed about inputs not generated. '
        'Trusts the independent oracles, OR-Tools/HiGHS/scikit-learn and '
        'CPython.')
PENDING = {}
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)['id'] for l in open(os.path.join(here,
                                                       'properties.jsonl'))]
have = [p for p in props if os.path.exists(
    os.path.join(here, 'rv', 'checks', p.lower() + '.py'))]
man = dict(
    version=1,
    setup_cmd='python3 run.py --selftest',
    checks=[dict(property=p, quick_cmd='python3 run.py ' + p,
                 thorough_cmd='python3 run.py %s --tier thorough' % p,
                 technique='runtime monitoring: ' + TECH[p],
                 level='exploration', level_note=NOTE) for p in have],
    not_applicable=[dict(property=p, reason=PENDING.get(
        p, 'the check is still being built')) for p in props
        if p not in have],
    notes='The monitors attach to the public classes from the harness '
          'process (method wrappers, stubs, virtual clock); /repo carries no '
          'hooks.')
json.dump(man, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
