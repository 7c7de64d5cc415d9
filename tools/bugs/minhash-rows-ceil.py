PROPERTY = 'C16'
NEEDS = 'a number of bands which does not divide the size of signatures'
BREAKS = 'bands are longer, and the last ones empty or short: fewer similar pairs or too many are found'
EDITS = [
    ('fog/clustering/minhash.py',
     '    rows = h // bands\n    h_upper_bound = bands * rows\n',
     '    rows = -(-h // bands)\n    h_upper_bound = h - h % rows\n'),
]
DEMO = '''
from fog.clustering import minhash
import random
rng = random.Random(3)
found = total = 0
for seed in range(40):
    data = []
    for i in range(20):
        words = ['%x' % rng.getrandbits(40) for _ in range(10)]
        data.append((i, tuple(words[:8])))
        data.append((i, tuple(words[2:])))
    r = list(minhash(data, h=11, bands=4, radius=0.5, key=lambda x: x[1], seed=seed))
    found += len(r)
    total += 20
assert found / total > 0.75, found / total
'''
