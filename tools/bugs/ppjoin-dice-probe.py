PROPERTY = 'C10'
NEEDS = 'the dice metric and records of quite different sizes'
BREAKS = 'ppjoin probes too short a prefix with dice and misses pairs'
EDITS = [
    ('fog/clustering/ppjoin.py',
     '        return int((1 - self.threshold / (2 - self.threshold)) * l + 1 + EPSILON)',
     '        return int((1 - self.threshold) * l + 1 + EPSILON)'),
]
DEMO = '''
from itertools import combinations
import random
from fog.clustering import ppjoin
rng = random.Random(3)
for _ in range(400):
    records = [set(rng.sample('abcdefghij', rng.randint(1, 8))) for _ in range(5)]
    records = [sorted(r) for r in records]
    want = sum(2 * len(set(a) & set(b)) / (len(a) + len(b)) >= 0.5 for a, b in combinations(records, 2))
    got = len(list(ppjoin(records, 0.5, metric='dice')))
    assert got == want, (records, got, want)
'''
