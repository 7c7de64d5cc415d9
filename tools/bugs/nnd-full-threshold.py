PROPERTY = 'C16'
NEEDS = 'the full variant with as many neighbours as possible on few items'
BREAKS = 'stops before the neighbours are found'
EDITS = [
    ('fog/clustering/nn_descent.py',
     '            for s, j, _ in neighbors:\n                if s >= radius:\n',
     '            for s, j, new in neighbors:\n                if s >= radius and (new or s > radius):\n'),
]
DEMO = '''
from fog.clustering.nn_descent import nn_descent_full
bad = 0
for seed in range(10):
    got = [sorted(c) for c in nn_descent_full([1, 2, 3, 4, 5, 6, 7, 8, 9, 10], 1, distance=lambda a, b: abs(a - b), k=9, seed=seed)]
    bad += got != [list(range(1, 11))]
assert bad == 0, bad
'''
