PROPERTY = 'C09'
NEEDS = 'more items than a block, and a pair exactly at the radius on both sides of a pivot ball'
BREAKS = 'quickjoin loses pairs lying exactly at the radius across partitions'
EDITS = [
    ('fog/clustering/quickjoin.py',
     '            if l <= d:',
     '            if l < d:'),
]
DEMO = '''
from fog.clustering import quickjoin
data = list(range(0, 60, 2))
distance = lambda a, b: abs(a - b)
for seed in range(20):
    got = list(quickjoin(data, 2, distance=distance, block_size=3, seed=seed))
    assert len(got) == 1 and len(got[0]) == len(data), (seed, got)
'''
