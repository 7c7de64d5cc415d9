PROPERTY = 'C31'
NEEDS = 'a program drawing from the global random generator'
BREAKS = 'quickjoin seeds the global random generator'
EDITS = [
    ('fog/clustering/quickjoin.py',
     '    rng = random.Random(seed)\n',
     '    random.seed(seed)\n    rng = random\n'),
]
DEMO = '''
import random
from fog.clustering import quickjoin
random.seed(5)
state = random.getstate()
list(quickjoin([1, 2, 3, 4], 1, distance=lambda a, b: abs(a - b), block_size=2, seed=1))
assert random.getstate() == state
'''
