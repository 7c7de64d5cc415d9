PROPERTY = 'C08'
NEEDS = 'strings of more than a hundred characters joined before shorter ones with a larger threshold'
BREAKS = 'the partition of other strings is used, and pairs are missed'
EDITS = [
    ('fog/clustering/passjoin.py',
     'def partition(k, l):\n',
     'PARTITIONS = {}\n\n\ndef partition(k, l):\n    key = k * 100 + l\n\n    if key not in PARTITIONS:\n        PARTITIONS[key] = list(compute_partition(k, l))\n\n    return iter(PARTITIONS[key])\n\n\ndef compute_partition(k, l):\n'),
]
DEMO = '''
from fog.clustering import passjoin
from cfog.metrics import levenshtein_distance as d
list(passjoin(['a' * 104, 'b' * 104], 1, distance=d))
r = list(passjoin(['abcd', 'abxd'], 2, distance=d))
assert len(r) == 1, r
'''
