PROPERTY = 'C09'
NEEDS = 'two items at exactly the radius on both sides of the ball of a pivot, the closer at exactly rho - radius'
BREAKS = 'items on the inner border of the window are left out'
EDITS = [
    ('fog/clustering/quickjoin.py',
     '            if l <= d:',
     '            if l < d:'),
]
DEMO = '''
from fog.clustering import quickjoin
for seed in range(40):
    data = list(range(40))
    got = list(quickjoin(data, distance=lambda a, b: abs(a - b), radius=1, block_size=4, seed=seed))
    assert len(got) == 1 and len(got[0]) == 40, (seed, got)
'''
