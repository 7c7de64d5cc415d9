PROPERTY = 'C09'
NEEDS = 'an item at exactly the pivot distance minus the radius'
BREAKS = 'the inner window leaves out its border'
EDITS = [
    ('fog/clustering/quickjoin.py',
     '            if l <= d:',
     '            if l < d:'),
]
DEMO = '''
from fog.clustering import quickjoin
data = list(range(40))
for seed in range(20):
    got = list(quickjoin(data, 1, distance=lambda a, b: abs(a - b), block_size=2, seed=seed))
    assert len(got) == 1 and sorted(got[0]) == data, (seed, got)
'''
