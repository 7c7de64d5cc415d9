PROPERTY = 'C16'
NEEDS = 'a single band'
BREAKS = 'items are not checked to be similar'
EDITS = [
    ('fog/clustering/minhash.py',
     '    def double_check(A, B):\n        if key is not None:\n',
     '    def double_check(A, B):\n        if bands == 1:\n            return True\n\n        if key is not None:\n'),
]
DEMO = '''
from fog.clustering import minhash
from fog.metrics import jaccard_similarity as j
import random
random.seed(1)
for s in range(300):
    data = [tuple(str(random.randrange(30)) for _ in range(random.randint(8, 12))) for _ in range(20)]
    for c in minhash(data, h=1, bands=1, radius=0.99, seed=s):
        for a in c:
            assert any(a is not b and j(set(a), set(b)) >= 0.99 for b in c), c
'''
