"""Rewrites MANIFEST.json."""
import json
import os
import sys

ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))

TECHNIQUE = {
    'C01': 'runtime monitoring of the extension compiled from the current tree (under ASan/UBSan in C04), results checked online against a reference distance',
    'C02': 'runtime monitoring of the extension compiled from the current tree (under ASan/UBSan in C04), results checked online against a reference distance',
    'C03': 'runtime monitoring of the extension compiled from the current tree (under ASan/UBSan in C04), results checked online against one-edit neighbourhoods',
    'C04': 'sanitizers (ASan, UBSan, LSan) and a leak monitor on the compiled code, with every allocation made to fail in turn',
    'C07': 'runtime monitoring of parallel runs under delayed workers, recorded results compared offline with the sequential ones',
    'C31': 'runtime monitoring of call histories and threads: hooked argument and generator state, results compared across schedules',
}
DEFAULT = 'runtime monitoring: the real code under generated hostile workloads, each result and recorded callback trace checked by an oracle written from the property'

sys.path.insert(0, ROOT)
checks = []

with open(os.path.join(ROOT, 'properties.jsonl')) as f:
    for line in f:
        p = json.loads(line)['id']
        checks.append({
            'property': p,
            'quick_cmd': './run.py %s' % p,
            'thorough_cmd': 'VERIF_TIER=thorough ./run.py %s' % p,
            'evidence_file': 'evidence/%s.json' % p,
            'technique': TECHNIQUE.get(p, DEFAULT),
            'level': 'fault_enumeration' if p == 'C04' else 'exploration',
            'level_note': ('Each allocation of each explored call is made to fail in turn; inputs themselves are sampled. ' if p == 'C04' else
                           'No violation on the executions explored, whose number and variety the evidence file gives; no claim beyond them. ')
            + 'Trusts the Python interpreter and the oracle of checks/%s.py, which is written from the property and not from the code.' % p.lower()
        })

manifest = {
    'version': 1,
    'setup_cmd': 'true',
    'hooks': {'guard': 'none', 'enable': 'no hook was added to /repo: monitors observe the public functions, the callbacks they are given, their processes and the allocator from outside', 'source_commits': []},
    'checks': checks,
    'not_applicable': [],
    'notes': 'run.py --replay FILE runs again the failing cases recorded by a violation. See DESIGN.md.'
}

with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write('\n')
