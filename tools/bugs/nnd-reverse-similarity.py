PROPERTY = 'C16'
NEEDS = 'an asymmetric view of the heap: a neighbour recorded with the similarity of another pair'
BREAKS = 'nn_descent_full records a pair with the similarity of another one and links dissimilar items'
EDITS = [
    ('fog/clustering/nn_descent.py',
     '            for u1 in n:\n\n                for u2 in n:\n                    if u1 >= u2:\n                        continue\n\n                    s = similarity(V[u1], V[u2])\n',
     '            for u1 in n:\n                s = None\n\n                for u2 in n:\n                    if u1 >= u2:\n                        continue\n\n                    s = max(s, similarity(V[u1], V[u2])) if s is not None and s >= radius else similarity(V[u1], V[u2])\n'),
]
DEMO = '''
from fog.clustering import nn_descent_full
data = list(range(0, 40, 1))
import random
for seed in range(30):
    rng = random.Random(seed)
    xs = rng.sample(range(200), 20)
    edges = set()
    close = lambda a, b: abs(a - b) <= 3
    for c in nn_descent_full(xs, 3, distance=lambda a, b: abs(a - b), seed=seed, k=4):
        c = sorted(c)
        assert all(close(x, y) for x, y in zip(c, c[1:])), (xs, c)
'''
