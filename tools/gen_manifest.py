#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = 'runtime monitoring: seeded stress workloads on the real code, '
SPECIAL = {
    'C01': TECH + 'well-formedness invariant monitor on every call',
    'C02': TECH + 'online oracle deciding which constructions are valid',
    'C03': TECH + 'operand snapshot monitor around every call',
    'C04': TECH + 'memory and label list aliasing monitor, write probes',
    'C05': 'AddressSanitizer and UndefinedBehaviorSanitizer builds, '
           'reference leak monitor and differential oracle on hostile '
           'workloads',
    'C24': 'runtime monitoring: random operation histories on real archives '
           'checked online against a dictionary model',
    'C25': 'runtime monitoring: differential oracle of archived against '
           'in-memory indexing',
    'C26': 'runtime monitoring with fault injection: failing saves, a fault '
           'or process death at every file operation of repack, recovery '
           'oracle',
    'C27': 'runtime monitoring: mutation of equal pairs, oracle on the '
           'verdict of the helpers',
    'C28': 'runtime monitoring: stub server with generated tables, '
           'reference oracle',
    'C29': TECH + 'each call repeated on copies of the operands with other '
           'memory layout and identity, later, or under another hash seed, '
           'with a monitor comparing the outcomes',
}
NOTE = ('Executions of the real code of the working tree under monitors; '
        'nothing is decided beyond the executions observed. The oracle is an '
        'independent per-cell reference in python; trusts NumPy, Bottleneck, '
        'h5py and the interpreter.')

checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(V, 'harness', 'checks',
                                   i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd='harness/run.sh ' + i,
            thorough_cmd='harness/run.sh %s --tier thorough' % i,
            technique=SPECIAL.get(i, TECH + 'compared online with an '
                                  'independent reference model (oracle)'),
            level='fault_enumeration' if i == 'C26' else 'exploration',
            level_note=NOTE))
    else:
        na.append(dict(property=i, reason='The check is not built yet.'))
m = dict(version=1, setup_cmd='harness/setup.sh', checks=checks,
         not_applicable=na,
         notes='No hooks in /repo: the monitors wrap the public calls from '
               'outside (harness/core.py) and load la from the .py sources '
               'of the working tree (harness/bootstrap.py).')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
